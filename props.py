"""Which workloads decide which property, and how much of each to run."""

import os

VALGRIND = ["valgrind", "--tool=memcheck", "--quiet", "--error-exitcode=97", "--exit-on-first-error=no",
            "--undef-value-errors=yes", "--leak-check=no", "--num-callers=14", "--show-mismatched-frees=no",
            "--suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "thirdparty.supp")]

COMMON = ["common.cpp", "boundary.cpp"]
BINARIES = {
    "vec": (COMMON + ["vec.cpp"], []),
    "sparse": (COMMON + ["sparse.cpp"], []),
    "assemble": (COMMON + ["assemble.cpp"], []),
    "dense": (COMMON + ["dense.cpp"], []),
    "block": (COMMON + ['block.cpp'], []),
    "solvers": (COMMON + ['solvers.cpp'], []),
    "io": (COMMON + ['io.cpp'], []),
    "args": (COMMON + ['args.cpp'], []),
    "direct": (COMMON + ['direct.cpp'], []),
    "part": (COMMON + ['part.cpp'], ["-Wl,--wrap=METIS_PartGraphKway"]),
    "values": (COMMON + ['values.cpp'], []),
    "overwrite": (COMMON + ['overwrite.cpp'], []),
    "contract": (COMMON + ['contract.cpp'], []),
    "pipeline": (COMMON + ['pipeline.cpp'], []),
    "views": (COMMON + ['views.cpp'], []),
    "large": (COMMON + ['large.cpp'], []),
    "oper": (COMMON + ['oper.cpp'], []),
    "show": (COMMON + ['show.cpp'], []),
    "same": (COMMON + ['same.cpp'], []),
    "threads": (COMMON + ['threads.cpp'], []),
    "par": (COMMON + ['par.cpp', 'par/standin.cpp', 'par/team.cpp'], []),
}


def fam(bin, *names, **kw):
    return [dict(bin=bin, fam=n, **kw) for n in names]


PROPS = {}

PROPS["C03"] = dict(
    families=fam("vec", "vec.arith.double", "vec.arith.int", n=6000) + fam("vec", "vec.fresh.double", "vec.fresh.int", n=2000)
    + fam("vec", "vec.reduce.double", "vec.reduce.int", n=2500) + fam("vec", "vec.mixed", n=2000),
    rule="random vectors (lengths 0-180, integer, dyadic, general and wide-magnitude values, double and int) through every vector operation; non-trivial: non-empty")

PROPS["C04"] = dict(
    families=fam("vec", "vec.views.double", "vec.views.int", n=3000) + fam("vec", "vec.block.double", "vec.block.int", n=1500) + fam("views", "views.live.double", "views.live.int", n=3000),
    must_see=["assignments between views", "assignments of equal contents", "assignments from blocks, columns and rows", "swaps of views", "view states compared"],
    rule="histories of writes through views, blocks and owner, every owner entry compared after each write; non-trivial: owner length > 2 / more than one block")
PROPS["C07"] = dict(
    families=fam("sparse", "sparse.products.double", "sparse.products.int", n=4000) + fam("sparse", "sparse.convert.double", "sparse.convert.int", n=1000),
    rule="random sparse matrices; non-trivial: at least one stored entry")
PROPS["C08"] = dict(
    families=fam("sparse", "sparse.edits.double", "sparse.edits.int", n=4000),
    rule="random edit histories; non-trivial: at least one stored entry")
PROPS["C22"] = dict(families=fam("vec", "vec.random.double", "vec.random.int", n=1500), rule="random lengths, ranges and seeds; non-trivial: length > 3")
PROPS["C25"] = dict(families=fam("vec", "timer", n=600), must_see=["monitor: wall clock set between clicks", "laps of a millisecond and more"], rule="click sequences; non-trivial: more than one click")
PROPS["C05"] = dict(
    families=fam("assemble", "coo.history.double", "coo.history.int", "lil.history.double", "lil.history.int", n=3000)
    + fam("assemble", "assembly.order", n=1000) + fam("assemble", "coo.eliminate", "lil.eliminate", n=800),
    rule="histories of additions, size declarations, permutations, copies and conversions; non-trivial: more than one contribution")
PROPS["C09"] = dict(families=fam("dense", "dense.products", n=4000) + fam("dense", "dense.arith", n=2500), rule="random shapes 0-180, all transpose combinations and call forms; non-trivial: no dimension empty")
PROPS["C10"] = dict(families=fam("dense", "dense.blocks", n=6000), rule="random histories of block reads, writes and resizes, the whole matrix compared after each; non-trivial: at least 2x2")
PROPS["C11"] = dict(families=fam("dense", "dense.invert", "dense.qr", "dense.svd", n=1500), rule="matrices with prescribed singular values and structured ones; non-trivial: rank possible > 1")
PROPS["C12"] = dict(families=fam("dense", "eigen.history", n=1500), rule="symmetric matrices of nine kinds in solver-reuse histories; non-trivial: n > 1")
PROPS["C14"] = dict(families=fam("block", "block.matrix.double", "block.matrix.int", n=2500) + fam("block", "block.operator", "block.vector", n=2500), rule="random block layouts (empty blocks and unset blocks included); non-trivial: more than one block set")
PROPS["C15"] = dict(families=fam("solvers", "krylov.converge", n=5000), rule="SPD and indefinite symmetric systems, all four solvers, tolerances, limits, right-hand sides and guesses; non-trivial: n > 1")
PROPS["C16"] = dict(families=fam("solvers", "reuse.pcg", "reuse.minres", "reuse.pminres", n=1500), rule="histories of reconfiguration, copies, moves, swaps and solves; non-trivial: at least two solves with n > 1")
PROPS["C17"] = dict(families=fam("io", "io.roundtrip.double", "io.roundtrip.int", n=4000) + fam("io", "io.foreign", n=3000), rule="random vectors and matrices (all double bit patterns, extreme integers, empty shapes) through all ten writer/reader pairs, plus hand-formatted files; non-trivial: more than one value")
PROPS["C18"] = dict(families=fam("io", "io.missing", n=800) + fam("io", "io.damaged.double", "io.damaged.int", n=8000) + fam("io", "io.short.double", "io.short.int", n=1500), must_see=["files cut short", "damaged file rejected", "damaged file read as a valid object"], rule="valid files of twelve formats damaged by truncation, byte, token, line and size-field changes, and by numbers turned into other numbers of the file or their neighbours; all non-trivial")
PROPS["C19"] = dict(families=fam("args", "args.parse", n=4000), rule="random option sets of seven types, orders, repetitions, malformed values, unknown options and help requests; non-trivial: more than one option given")
PROPS["C20"] = dict(families=fam("direct", "direct.history", n=2500), rule="histories of building, solving with, copying, moving, swapping and destroying solvers over non-singular matrices of seven kinds; non-trivial: a system with n > 1")
PROPS["C21"] = dict(families=fam("part", "partition.double", "partition.int", n=2500) + fam("part", "partition.gaps", n=3000), must_see=["monitor: graph handed to METIS observed", "groupings compared with METIS"], rule="graphs of seven shapes, weighted and unweighted, with, without and with partial diagonal; non-trivial: more than two vertices, more than one part, at least one edge")
PROPS["C02"] = dict(families=fam("values", *("value.vector.double value.vector.int value.blockvector value.blockvector.int value.dense value.sparse.double value.sparse.int value.coo.double value.coo.int value.lil.double value.lil.int value.blockmatrix value.blockmatrix.int value.blockoperator value.eigensolver value.pcg value.minres value.pminres value.direct value.timer value.views.double value.views.int".split()), n=500), rule="random histories of construction, copying, moving, swapping, assignment (self included), change and destruction over a pool of objects, every live object compared with its own model after each step; non-trivial: more than one object alive")
PROPS["C13"] = dict(families=fam("overwrite", *("overwrite.dense overwrite.factor overwrite.sparse.double overwrite.sparse.int overwrite.coo.double overwrite.coo.int overwrite.lil.double overwrite.lil.int overwrite.block overwrite.solver overwrite.vector overwrite.partition".split()), n=800), must_see=["monitor: bitwise comparison"], rule="every call with an output argument into targets of several shapes filled with zeros, stale numbers, NaN, infinities; non-trivial: at least 2x2 or more than one entry / block / part")
PROPS["C23"] = dict(families=fam("contract", *("contract.vector.double contract.vector.int contract.dense contract.sparse.double contract.sparse.int contract.coo.double contract.coo.int contract.lil.double contract.lil.int contract.block contract.solver".split()), n=1500, variants=["contract"]) + fam("par", "contract.par", n=2500, variants=["contract"]), must_see=["outcome: stopped by an assertion", "outcome: stopped by an assertion, distributed"], rule="every public call with operands that do not fit, an index just or far outside, or a zero divisor, in a child of a build with assertions; every case is non-trivial")
PROPS["C24"] = dict(families=fam("threads", "threads.own", "threads.shared", n=400, variants=["tsan", "rel"], rel_mult=4, chunk=25), must_see=["monitor: result compared with the same work alone", "operations begun while another was running"], rule="2-6 threads with start lines, random yields, spins and sleeps, on objects of their own or on shared constants; a case counts as distinct by its order of begin and end events, non-trivial: at least two operations overlapped")
MEMORY = r"^(asan-|ubsan-|signal-|terminate|assertion|exit-|hang|leak|exception|valgrind|boundary|partition-graph)"
_ALL = [("vec", "vec.arith.double vec.arith.int vec.fresh.double vec.fresh.int vec.reduce.double vec.reduce.int vec.mixed vec.views.double vec.views.int vec.block.double vec.block.int vec.random.double vec.random.int timer"),
        ("sparse", "sparse.products.double sparse.products.int sparse.convert.double sparse.convert.int sparse.edits.double sparse.edits.int"),
        ("assemble", "coo.history.double coo.history.int lil.history.double lil.history.int assembly.order coo.eliminate lil.eliminate"),
        ("dense", "dense.products dense.arith dense.blocks dense.invert dense.qr dense.svd eigen.history"),
        ("block", "block.matrix.double block.matrix.int block.operator block.vector"),
        ("solvers", "krylov.converge reuse.pcg reuse.minres reuse.pminres"),
        ("io", "io.roundtrip.double io.roundtrip.int io.foreign io.missing io.damaged.double io.damaged.int"),
        ("args", "args.parse"), ("direct", "direct.history"), ("views", "views.live.double views.live.int"), ("part", "partition.double partition.int partition.gaps"),
        ("pipeline", "pipeline.double pipeline.int"),
        ("values", " ".join(f["fam"] for f in PROPS["C02"]["families"])), ("overwrite", " ".join(f["fam"] for f in PROPS["C13"]["families"]))]
PROPS["C01"] = dict(
    families=[f for b, names in _ALL for f in fam(b, *names.split(), n=500, vg_n=24)], variants=["asan", "rel", "vg"], keys=MEMORY,
    must_see=["boundary: array extents checked"],
    rule="every workload of the other checks, replayed under AddressSanitizer and UndefinedBehaviorSanitizer (container bounds included), in the optimised build and under valgrind memcheck, with every LAPACK, BLAS, UMFPACK and METIS call checked at the boundary and live heap bytes compared before and after each case; non-trivial as in the family")
PROPS["C06"] = dict(
    families=fam("pipeline", "pipeline.double", "pipeline.int", n=3000) + fam("sparse", "sparse.products.double", "sparse.products.int", "sparse.convert.double", "sparse.convert.int", "sparse.edits.double", "sparse.edits.int", n=1500)
    + fam("assemble", "coo.history.double", "coo.history.int", "lil.history.double", "lil.history.int", "assembly.order", "coo.eliminate", "lil.eliminate", n=700)
    + fam("block", "block.matrix.double", "block.matrix.int", n=1000) + fam("io", "io.roundtrip.double", "io.roundtrip.int", "io.foreign", "io.damaged.double", "io.damaged.int", n=1500)
    + fam("values", "value.sparse.double", "value.sparse.int", n=300),
    keys=r"^(wf-|pipeline-value|asan-|ubsan-|signal-|terminate|assertion)", must_see=["monitor: CSR structure walked"],
    rule="every sparse matrix handed out by any construction, conversion, product, extraction, edit, block combination or reader is walked; pipelines feed results back as operands; non-trivial: stored entries exist")
# one object in several roles of a call
for _p, _n in (("C03", "same.vector.double same.vector.int"), ("C05", "same.coo.double same.coo.int same.lil.double same.lil.int"), ("C07", "same.sparse.double same.sparse.int"),
               ("C08", "same.sparse.double same.sparse.int"), ("C09", "same.dense"), ("C10", "same.dense same.stack"), ("C14", "same.block"), ("C06", "same.sparse.double same.sparse.int same.block")):
    PROPS[_p]["families"] += fam("same", *_n.split(), n=1000)
PROPS["C01"]["families"] += fam("same", *"same.vector.double same.vector.int same.dense same.stack same.sparse.double same.sparse.int same.coo.double same.coo.int same.lil.double same.lil.int same.block".split(), n=500, vg_n=24)
# the same operations at sizes far beyond the rest (n given as is, not scaled)
for _p, _n in (("C03", "large.vector.double large.vector.int"), ("C05", "large.assembly.double large.assembly.int"), ("C07", "large.sparse.double large.sparse.int"),
               ("C08", "large.sparse.double large.sparse.int"), ("C09", "large.dense"), ("C10", "large.dense"), ("C11", "large.factor"), ("C12", "large.factor"), ("C14", "large.block"),
               ("C15", "large.krylov"), ("C17", "large.files.double large.files.int"), ("C20", "large.direct"), ("C21", "large.partition"), ("C22", "large.vector.double large.vector.int"),
               ("C06", "large.sparse.double large.sparse.int large.assembly.double large.assembly.int large.block large.files.double large.files.int")):
    PROPS[_p]["families"] += fam("large", *_n.split(), n=150, fixed=True)
PROPS["C01"]["families"] += fam("large", *"large.vector.double large.vector.int large.assembly.double large.assembly.int large.sparse.double large.sparse.int large.dense large.factor large.block large.krylov large.direct large.partition large.files.double large.files.int".split(), n=60, fixed=True, variants=["asan", "rel"])
PROPS["C27"] = dict(families=fam("show", *"show.vector.double show.vector.int show.sparse.double show.sparse.int show.builders show.dense show.block.double show.block.int".split(), n=1500), must_see=["printed texts read back", "standard output descriptor watched"],
    rule="random objects of every printable class, labels, widths, precisions and stream states; the text is parsed back; non-trivial: more than one entry")
PROPS["C28"] = dict(families=fam("oper", "operator.forms", "operator.sizes", "operator.failing", n=2500), must_see=["monitor: user operator applied", "transposed action that is not defined raised", "operators that raised"],
    rule="random operators of eleven kinds, nested, through every call form of the interface; histories of copies, moves and swaps; operators that fail at a chosen application; non-trivial: more than one row or column")
_PAR = "par.products par.algebra par.updates par.lifetime par.vectors par.split par.solvers par.eigen par.traded par.mixed par.rownorms".split()
PROPS["C26"] = dict(families=fam("par", *_PAR, n=600) + fam("par", "par.products", "par.algebra", "par.lifetime", "par.solvers", n=300, variants=["omp", "omptsan"]), must_see=["monitor: distributed structure walked", "monitor: distributed vectors compared", "monitor: distributed solves judged", "monitor: communication packages matched", "halo exchanges seen", "cases on a duplicated communicator", "parallel regions entered by a team", "monitor: traded solvers judged", "monitor: traded vectors judged"],
    rule="random matrices and vectors dealt to 1-6 ranks (threads over the stand-in of HYPRE and MPI), world and reordered communicators; non-trivial: more than one rank and more than two entries")
PROPS["C01"]["families"] += fam("par", *_PAR, n=150, vg_n=6)
PROPS["C01"]["families"] += fam("show", *[f["fam"] for f in PROPS["C27"]["families"]], n=300, vg_n=16) + fam("oper", "operator.forms", "operator.sizes", "operator.failing", n=500, vg_n=24)
# how much of each workload a quick run takes (about ten seconds on eight cores), and how much more a thorough one
_SCALE = dict(C03=10, C04=20, C07=6, C08=8, C22=15, C25=20, C05=6, C09=6, C10=20, C11=12, C12=8, C14=10, C15=10, C16=6, C17=5, C18=2,
              C19=20, C20=10, C21=3, C27=5, C28=10, C02=6, C13=1.5, C24=2, C06=2, C26=2)
for _p, _s in _SCALE.items():
    PROPS[_p]["scale"] = _s
# a thorough run multiplies the quick one by 30 unless that takes too long
PROPS["C23"]["deep"] = 12
NOT_APPLICABLE = {}
