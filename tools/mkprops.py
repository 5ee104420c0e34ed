#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


p("C01", "In-contract use never touches memory it does not own, leaks, or aborts",
  "Every call whose arguments satisfy the documented size and range requirements completes without an out-of-bounds, use-after-free or uninitialised-memory access, without undefined behaviour, leak, assertion failure or crash. This includes the buffers and dimensions handed to the LAPACK, BLAS, UMFPACK and METIS libraries, and holds for empty, 1x1, wide, tall and repeatedly reused objects.",
  ["inputs", "histories", "programs"], "all in-contract call sequences over all public types, element types and shapes (including zero-sized)",
  "The tests run one fixed script of small square examples and print the results; no sanitizer is enabled and nothing checks the extents of arrays passed to LAPACK.",
  ["include/", "src/", "modules/sparsesolver/", "modules/partition/"],
  [("std::vector owned storage, RAII handles", "include/vector.hpp, include/sparsematrix.hpp, include/densematrix.hpp"), ("workspace sizing for LAPACK", "src/densematrix.cpp, src/eigensolver.cpp"), ("UMFPACK handle ownership", "modules/sparsesolver/src/sparsesolve.cpp")],
  observe=["sanitizer reports", "valgrind memcheck reports", "arguments at the LAPACK/BLAS boundary", "live heap bytes before and after each case"])

p("C02", "Copies are independent, moves and swaps transfer, assignment replaces",
  "For every matrix, vector, block and solver type: a copy (constructed or assigned) equals its source and stays unaffected by later changes to it, a move or swap transfers exactly the contents, and self-assignment keeps the value. A moved-from object can be destroyed, assigned to and used again, and nothing is released twice.",
  ["histories"], "all sequences of copy/move construction, copy/move/self assignment, swap, mutation and destruction over pools of objects of each type",
  "Tests copy a handful of objects once and print them; no interleaving of mutation, moves and destruction is sampled and no equality is asserted.",
  ["include/vector.hpp", "include/blockvector.hpp", "include/sparsematrix.hpp", "include/densematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp", "src/blockoperator.cpp", "src/solvers.cpp", "modules/sparsesolver/src/sparsesolve.cpp"],
  [("copy-and-swap assignment, friend swap", "include/sparsematrix.hpp, include/densematrix.hpp, include/coomatrix.hpp"), ("view rebinding after storage changes", "include/vector.hpp")],
  observe=["public accessors of every object in the pool after each operation"])

p("C03", "Vector arithmetic and reductions equal their entrywise definitions",
  "Every elementwise update, scalar operation, multi-term update, construction of a new vector, inner product, norm, sum, mean, extremum (signed and absolute), normalisation, average removal, sub-vector gather and comparison returns what its mathematical definition gives for the stored entries, up to floating-point rounding. It holds for every length and element type, including when operands are the same object, and operands that are not the target keep their values.",
  ["inputs"], "all lengths, element types (double, int, mixed), values and operand aliasings",
  "Tests print results of a few operations on length-3 vectors; only one norm is asserted.",
  ["include/vectorview.hpp", "include/vector.hpp", "src/vectorview.cpp"],
  [("operator templates over views", "include/vectorview.hpp"), ("value-returning operators", "include/vector.hpp")],
  observe=["result entries and operands after each call, guard cells around the viewed range"])

p("C04", "A view reads and writes exactly its range of the owner's storage",
  "A view, a block of a block vector, a matrix column view or a sparse row-index view shares the owner's storage: writes through it are visible in the owner at exactly the viewed positions and nowhere else, and owner changes are visible through it. Assigning to a view copies values into the viewed range and never re-seats it, while constructing an owning vector from a view makes an independent copy.",
  ["inputs", "histories"], "all offsets, lengths, overlaps and interleavings of writes through views and owner",
  "Tests take one or two views and print them; positions outside the view are never checked.",
  ["include/vectorview.hpp", "include/blockvector.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp"],
  [("pointer plus length views, deep-copy assignment", "include/vectorview.hpp"), ("offset arithmetic", "include/blockvector.hpp, src/densematrix.cpp")],
  observe=["every entry of the owner after each write"])

p("C05", "Triplet assembly: order-free, duplicates add, all representations agree",
  "A matrix assembled from triplets (coordinate or list-of-lists, single entries, symmetric pairs, dense blocks with index lists, optional scaling and permutations) represents the sum of all contributions at each position, whatever the insertion order and however often it is converted, cleared or extended. Its sparse form, dense form and its own matrix-vector products all denote that same matrix with the declared size, or, when none was declared, with the smallest size that holds every index.",
  ["inputs", "histories"], "all triplet multisets, orders, declared or inferred shapes and interleavings of additions and conversions",
  "The only assertion compares the sums of two conversions of one small matrix; duplicates, permuted insertion, inferred sizes and list-of-lists products are not asserted.",
  ["include/coomatrix.hpp", "include/lilmatrix.hpp"],
  [("entry accumulation and conversion", "include/coomatrix.hpp ToSparse/ToDense/Mult, include/lilmatrix.hpp"), ("size inference", "FindSize in include/coomatrix.hpp and include/lilmatrix.hpp")],
  observe=["Rows/Cols, ToSparse, ToDense, Mult, MultAT of the assembled object"])

p("C06", "Every sparse matrix handed out is structurally well formed",
  "Any sparse matrix constructed, read, converted, multiplied, transposed, extracted, edited or combined by the library has one more row pointer than rows, row pointers starting at zero and never decreasing, a last row pointer equal to the number of stored indices and values, and every column index inside the column range. No position is stored twice unless the input stored it twice.",
  ["inputs", "histories"], "all operations that produce or edit sparse matrices, over all shapes (empty rows, empty matrices, rectangular) and histories",
  "No test looks at row pointers or column indices.",
  ["include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp", "include/parser.hpp", "modules/partition/include/partition.hpp"],
  [("constructor checks", "include/sparsematrix.hpp"), ("row pointer construction loops", "ToSparse, Mult, Transpose, GetSubMatrix, EliminateZeros, Combine, parsers")],
  state=[("indptr/indices/data", "compressed rows", "include/sparsematrix.hpp")],
  observe=["row pointers, indices and values of every returned matrix"])

p("C07", "Sparse products and transposes equal their mathematical definition",
  "Multiplying a sparse matrix or its transpose by a vector, a dense matrix or another sparse matrix, transposing it, and converting it to dense form give the mathematically defined result for all stored entries, through every call form (value, output argument, view, operator interface, integer and double operands). Reusing a workspace array across products never changes a result.",
  ["inputs", "histories"], "all shapes, sparsity patterns, column orders within rows, element types, call forms and workspace histories",
  "Tests print products of one 3x3 or 5x5 matrix; nothing but an all-zero product is asserted.",
  ["include/sparsematrix.hpp", "src/operator.cpp"],
  [("row loops", "include/sparsematrix.hpp Mult/MultAT/MultCT"), ("two-pass sparse product with marker", "include/sparsematrix.hpp Mult(SparseMatrix)"), ("counting transpose", "include/sparsematrix.hpp Transpose")],
  observe=["result entries against a dense reference"])

p("C08", "Sparse edits change exactly the addressed entries",
  "Scaling (by a scalar, by rows, by columns, and the inverses), permuting columns, eliminating rows, columns or small entries, updating the stored diagonal, sorting the indices and extracting sub-matrices change or return exactly the entries their description names, with the described values. All other entries, the shape and the meaning of the matrix stay as they were, in any sequence of such edits.",
  ["inputs", "histories"], "all edit sequences on all sparse matrices, index lists and markers",
  "Tests call a few edits once on one matrix and print it.",
  ["include/sparsematrix.hpp"],
  [("in-place data loops", "include/sparsematrix.hpp Scale*/Eliminate*/AddDiag"), ("marker-based extraction", "include/sparsematrix.hpp GetSubMatrix"), ("index sort by permutation", "include/sparsematrix.hpp SortIndices")],
  observe=["stored entries after each edit against an entry-map model"])

p("C09", "Dense products and arithmetic equal their mathematical definition",
  "Dense matrix products in all four transpose combinations, products with vectors, transposition, sums, differences, scalar scaling, sums and extrema over entries, rows and columns scaling, and comparison give the mathematically defined result up to rounding for every shape, including empty ones, through every call form. Operands keep their values and the previous content and size of an output object do not matter.",
  ["inputs"], "all shapes including zero-sized, values, call forms and previous output contents",
  "Tests print products of fixed square matrices and never use non-square or empty ones with assertions.",
  ["include/densematrix.hpp", "src/densematrix.cpp"],
  [("dgemm wrapper with leading dimensions", "src/densematrix.cpp"), ("entry loops", "src/densematrix.cpp, include/densematrix.hpp")],
  observe=["result entries against a reference product"])

p("C10", "Dense block access and resizing touch exactly the selected entries",
  "Getting or setting a row, column, diagonal or rectangular block (by range or by index lists), taking column views, stacking matrices side by side and resizing move exactly the addressed entries between exactly the right positions. Every other entry of the matrix keeps its value.",
  ["inputs", "histories"], "all shapes, ranges, index lists and edit sequences",
  "Tests print a few sub-matrices of one small matrix.",
  ["include/densematrix.hpp", "src/densematrix.cpp"],
  [("column-major index arithmetic", "include/densematrix.hpp"), ("sub-block copy loops", "include/densematrix.hpp, src/densematrix.cpp")],
  observe=["all entries of source and target after each call"])

p("C11", "Dense factorisations and inverses satisfy their defining equations",
  "The inverse of a non-singular matrix times the matrix is the identity, the orthogonal factor returned by QR has orthonormal columns that span the columns of a full-rank input, and the singular values are the non-negative, non-increasing singular values of the input, with the returned singular vectors orthonormal where applicable. This holds up to conditioning-scaled rounding for square, tall and wide inputs of every size the call accepts, and does not depend on earlier calls.",
  ["inputs", "histories"], "all shapes, ranks and scalings",
  "Tests factor one or two small square matrices and print them.",
  ["src/densematrix.cpp", "include/densematrix.hpp"],
  [("LAPACK dgetrf/dgetri, dgeqp3/dorgqr, dgesvd calls and workspace queries", "src/densematrix.cpp")],
  observe=["residuals of the defining equations", "array extents at the LAPACK boundary"])

p("C12", "Eigenpairs are the requested smallest ones, whatever was solved before",
  "For a symmetric matrix the eigensolver returns eigenvalues in ascending order that match the true spectrum and orthonormal eigenvectors satisfying A v = lambda v, for as many of the smallest pairs as the tolerance and maximum-count arguments select (at least one). The result does not depend on which sizes or matrices the same solver object handled before.",
  ["inputs", "histories"], "all symmetric matrices (repeated, zero, clustered and widely scaled eigenvalues, decoupled blocks), all tolerances and counts, all sequences of sizes on one solver object",
  "Tests solve one 3x3 problem with a new solver object.",
  ["src/eigensolver.cpp", "include/eigensolver.hpp"],
  [("tridiagonalisation, selective eigenvectors, back-transformation", "src/eigensolver.cpp"), ("workspace cached between calls", "src/eigensolver.cpp Allocate")],
  state=[("workspace", "buffers kept between solves", "include/eigensolver.hpp")],
  observe=["returned values and vectors"])

p("C13", "Results overwrite their target and depend only on the current inputs",
  "Applying any operator, product or conversion with an output argument overwrites the whole output: the result is the same whether the output held zeros, stale numbers or NaN before, had another size where it is resizable, or the object was used before with other inputs. Inputs and the operator itself are left unchanged, and repeating a call gives the same result.",
  ["inputs", "histories"], "all operator types, call forms, previous output contents and interleaved calls with different inputs",
  "Tests use every output object once, zero-initialised.",
  ["src/operator.cpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "src/densematrix.cpp", "include/blockmatrix.hpp", "src/blockoperator.cpp", "src/solvers.cpp", "modules/sparsesolver/src/sparsesolve.cpp", "src/vectorview.cpp"],
  [("output initialisation in each Mult/MultAT", "all operator types")],
  state=[("work vectors inside block operators and solvers", "mutable temporaries", "include/blockoperator.hpp, include/solvers.hpp")],
  observe=["bitwise comparison of the outputs from differently prepared targets, inputs before and after"])

p("C14", "Blocked vectors, matrices and operators act like their assembled whole",
  "A block vector, block matrix or block operator with given row and column offsets has the total size of its blocks, and applying it or its transpose, transposing it, combining it into one sparse or dense matrix, or reading and writing its blocks gives the same result as the single matrix obtained by placing each block at its offsets. Blocks that were never set act as zero.",
  ["inputs", "histories"], "all block layouts (rectangular, empty and unset blocks, one block, many blocks) and all histories of setting and replacing blocks",
  "Tests build one 2x2 layout with equal square blocks and print it.",
  ["include/blockvector.hpp", "include/blockmatrix.hpp", "include/blockoperator.hpp", "src/blockoperator.cpp"],
  [("offset-based block views", "include/blockvector.hpp"), ("blockwise accumulation", "include/blockmatrix.hpp, src/blockoperator.cpp"), ("row merge", "include/blockmatrix.hpp Combine")],
  observe=["results against the assembled reference matrix"])

p("C15", "A Krylov solve that reports convergence solved the system to tolerance",
  "For a symmetric positive definite system (conjugate gradients) or a symmetric nonsingular system (MINRES), with or without an SPD preconditioner, and any starting guess including an exact solution or a zero right-hand side, the solver either stops before its iteration limit with an iterate whose residual meets the requested tolerance, or reports that it used all its iterations. The iteration count reported never exceeds the limit, the result contains only finite numbers, and with enough iterations a well-conditioned system is solved.",
  ["inputs", "histories"], "all symmetric systems and preconditioners in the method's class, starting guesses, tolerances and iteration limits",
  "Tests run one 3x3 system from one start and print the error.",
  ["include/solvers.hpp", "src/solvers.cpp"],
  [("residual-based stopping tests", "src/solvers.cpp"), ("iteration counters", "src/solvers.cpp")],
  observe=["the iterate returned, its true residual recomputed outside, the reported iteration count, the recorded number of operator applications"])

p("C16", "A solver object can be reused: earlier solves never influence later ones",
  "Solving with a solver object that already solved other systems, was copied, assigned, moved or swapped, or had its tolerances, limits, operator or preconditioner replaced gives the same iterate and iteration count as a new object with the same settings. Changing the settings takes effect for the next solve.",
  ["histories"], "all sequences of solves, setting changes, copies, moves and swaps",
  "Every test constructs a solver, solves once and drops it.",
  ["include/solvers.hpp", "src/solvers.cpp", "src/eigensolver.cpp"],
  [("re-initialised work vectors", "src/solvers.cpp"), ("settings stored per object", "include/solvers.hpp")],
  state=[("work vectors and counters", "mutable state of each solver", "include/solvers.hpp")],
  observe=["iterate and iteration count compared bitwise with those of a fresh solver"])

p("C17", "Writing then reading any supported file format returns the same object",
  "Every writer/reader pair (text and binary vectors, coordinate, symmetric coordinate, adjacency, compressed-row, Matrix Market, tables and binary matrices) returns an object with the same shape, entries and exact double or integer values as the one written, for every value and sparsity pattern the format can express. For list formats that carry no size, the shape is the smallest that holds every entry.",
  ["inputs"], "all matrices and vectors (empty, empty rows and columns, extreme and tiny magnitudes, explicit zeros, integers and doubles)",
  "Tests read fixed small files and print them; one or two round trips are printed, not compared.",
  ["include/parser.hpp"],
  [("stream precision and layout of each format", "include/parser.hpp Write*"), ("shape and symmetry handling", "include/parser.hpp Read*")],
  observe=["objects before writing and after reading"])

p("C18", "Missing or damaged input files raise an error instead of corrupting",
  "Reading a file that does not exist throws an exception. Reading a file whose content is empty, truncated or corrupted either throws or returns a structurally valid object, and never crashes, hangs, reads outside its buffers or returns a malformed sparse matrix. A binary vector, binary matrix or compressed-row file that ends before the last number it announces throws.",
  ["inputs", "fault_sequences"], "all formats times all truncation points and byte corruptions of valid files, and unopenable paths",
  "Tests read one missing file for one format and otherwise only valid files.",
  ["include/parser.hpp"],
  [("file open checks", "include/parser.hpp"), ("header and stream-state checks", "include/parser.hpp Read*")],
  observe=["exception or returned object, sanitizer reports, structural monitor on the result"])

p("C19", "Command line parsing assigns exactly the given options and reports the rest",
  "After parsing, each registered option holds the value given for it on the command line converted to its type, or its default when it was not given; switches flip when given, the order of the options does not matter, and the parser reports success exactly when help was not asked for, no option was given or registered twice and every value given to a registered option converts completely. Errors and help text name the offending or registered options.",
  ["inputs", "histories"], "all registered option sets, types, argument orders, repeated, unknown and malformed arguments",
  "Tests parse one fixed command line with one unknown option.",
  ["include/argparser.hpp", "src/argparser.cpp"],
  [("flag table and value conversion", "include/argparser.hpp, src/argparser.cpp")],
  observe=["bound variables, the success state and the printed help/errors"])

p("C20", "The sparse direct solver returns the solution for every non-singular matrix",
  "For a non-singular sparse square matrix the direct solver's result x satisfies A x = b, and its transpose solve A^T x = b, up to conditioning-scaled rounding, for any right-hand side, entry order, scaling or sparsity (unsymmetric, permuted, triangular, 1x1). Copies, moves and swaps of the solver, and many solves from one factorisation, behave the same, and an empty solver is safe to copy, move and destroy.",
  ["inputs", "histories"], "all non-singular matrices and sequences of solves, copies, moves and destructions",
  "One test solves one small symmetric matrix.",
  ["modules/sparsesolver/include/sparsesolve.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
  [("UMFPACK factor handle", "modules/sparsesolver/src/sparsesolve.cpp"), ("row/column storage convention (transpose solve)", "modules/sparsesolver/src/sparsesolve.cpp")],
  observe=["residuals, solver results after copies and moves"])

p("C21", "Partitions assign every vertex one part, numbered without gaps",
  "Partitioning a graph returns exactly one part per vertex, with part numbers from zero to the number of non-empty parts minus one and at most the requested number of parts, reproducibly and for weighted and unweighted, connected and disconnected graphs with or without a stored diagonal. The graph handed to the METIS partitioner has exactly the off-diagonal structure of the matrix, with the truncated absolute values as weights when asked, contiguity and balance are requested as given, and the grouping METIS returns is the one the caller gets.",
  ["inputs"], "all symmetric graphs, numbers of parts (one, as many as vertices, more), imbalance factors and weights",
  "One test partitions a 6-vertex matrix and prints it.",
  ["modules/partition/include/partition.hpp"],
  [("adjacency construction without the diagonal", "modules/partition/include/partition.hpp"), ("removal of empty parts", "modules/partition/include/partition.hpp")],
  observe=["the partition vector, the arrays passed to METIS"])

p("C22", "Seeded randomisation is reproducible and stays in range",
  "Filling a vector with a positive seed gives the same values every time, whatever was drawn in between, different seeds give different sequences, and unseeded draws differ from call to call. All values lie in the requested range and the draws cover it.",
  ["inputs", "histories"], "all lengths, ranges and seeds, with unrelated draws in between",
  "Tests randomise a vector once and print it.",
  ["src/vectorview.cpp", "include/vectorview.hpp"],
  [("per-call engine seeded from the argument", "src/vectorview.cpp")],
  observe=["drawn values"])

p("C23", "Debug builds stop size mismatches and bad indices before any damage",
  "In a build with assertions, an operation on operands whose sizes do not fit, an entry, row, column, block or lap index outside the object, the extremum of an empty object, or division by a zero scalar is stopped (assertion or exception) at the call, before any memory outside the objects is read or written and before a result is returned. The same holds for the distributed matrices, vectors, solvers and splittings, on every rank that is handed operands that do not fit.",
  ["inputs"], "all documented preconditions of vectors, sparse, dense, block and triplet matrices, solvers, operators and the distributed module, each violated by one and by many, on one rank and on all",
  "Tests never violate a precondition.",
  ["include/", "src/"],
  [("assert guards at the entry of each operation", "all headers and sources")],
  observe=["fate of a child process making the bad call: stopped, thrown, silent, or sanitizer report"])

p("C24", "Distinct objects can be used from distinct threads; const reads can be shared",
  "Operations on objects owned by one thread never race with, and never change the result of, operations other threads perform on their own objects, and concurrent products with and conversions of one shared constant matrix are race-free. There is no hidden shared mutable state in the library.",
  ["schedules"], "all interleavings of threads working on their own vectors, matrices, parsers, eigen- and Krylov solvers, and of threads reading one constant matrix",
  "No test starts a thread.",
  ["include/", "src/", "modules/sparsesolver/"],
  [("workspaces are members or locals, never static", "src/solvers.cpp, src/eigensolver.cpp, src/densematrix.cpp"), ("const products keep no cache", "include/sparsematrix.hpp, src/densematrix.cpp")],
  observe=["ThreadSanitizer reports", "per-thread results compared bitwise with the single-threaded ones"])

p("C25", "Timer laps are non-negative, ordered and add up to the total",
  "For any number of clicks the laps of a timer are non-negative, cover the time that really passed between the clicks, and sum to the reported total, which is zero with fewer than two clicks. Reading never changes the timer and copies are independent.",
  ["inputs", "histories"], "all click sequences and waiting times",
  "Tests print one timer reading.",
  ["include/timer.hpp", "src/timer.cpp"],
  [("list of time points", "src/timer.cpp")],
  observe=["laps and totals against an outside clock"])

p("C26", "Distributed matrices and vectors act like their serial counterparts",
  "A matrix or vector distributed over any number of processes, each with any number of OpenMP threads, and any row and column split gives the same products, transposes, sums, triple products, scalings, norms and reductions as the serial object obtained by gathering it. Every row, column and entry belongs to exactly one process, every process sees the same answer, all processes make the same collective calls, and solvers, preconditioners and eigensolvers hand the library below exactly the matrix, vectors and settings the caller gave. Copies, moves and swaps of distributed objects act like the object they came from, and nothing is left behind when they are gone.",
  ["inputs", "schedules", "configurations"], "all process and thread counts, splits with non-empty parts (as documented), sparsity patterns, communicators, solver kinds and settings, and histories of copies, moves and swaps",
  "The module's test is not built in this configuration and compares nothing.",
  ["modules/parlinalgcpp/"],
  [("HYPRE wrappers", "modules/parlinalgcpp/src/parmatrix.cpp, paroperator.cpp, parvector.cpp"), ("products and transposes", "modules/parlinalgcpp/src/hypre_ops.cpp"), ("splitting and sums", "modules/parlinalgcpp/src/parutilities.cpp"), ("solvers", "modules/parlinalgcpp/src/parsolvers.cpp, parsmoother.cpp")],
  observe=["gathered results", "the calls that reach HYPRE and MPI"], hook=None)

p("C27", "Printing shows the label and every entry exactly once and changes nothing else",
  "Printing a vector, view, block, dense, sparse, triplet or block object writes the given label first and then text from which every entry can be read back, at its own position, exactly once and to the printed accuracy (repeated triplet contributions may be listed one by one). The printed object keeps its contents, the output stream keeps its formatting and earlier output, and nothing is written anywhere but to the stream that was given (standard output when none is).",
  ["inputs", "configurations"], "all objects of every printable class, labels, widths, precisions and stream formatting states",
  "Tests print objects and compare nothing.",
  ["include/", "src/densematrix.cpp"],
  [("entry loops over the stored structure", "include/vectorview.hpp, include/sparsematrix.hpp, include/coomatrix.hpp, include/lilmatrix.hpp, include/blockmatrix.hpp"), ("formatting confined to a local stream", "src/densematrix.cpp")],
  observe=["the printed text parsed back", "stream flags, precision and fill before and after"])

p("C28", "Every operator is one linear map, whichever call form and however it is composed",
  "Any operator used through the common interface, supplied by the library or by a user who defines only its forward action, reports the size of its map and gives the same result into a view, into a vector of any previous size and by value, with y^T A x as its inner product and its transpose as the adjoint, also when nested in other operators; sizes survive copies, moves and swaps. Asking for a transposed action that is not defined raises an error. An error raised by a user's operator reaches the caller of whatever operator or solver applied it, which afterwards works as before.",
  ["inputs", "histories", "crash_points"], "all operators of every class and nesting, shapes including empty ones, call forms and vectors, and all points at which a user operator fails",
  "Tests apply a few concrete matrices directly.",
  ["include/operator.hpp", "src/operator.cpp", "include/blockoperator.hpp", "src/blockoperator.cpp", "include/", "src/"],
  [("convenience forms built on the one virtual action", "src/operator.cpp"), ("blocks applied in turn with scratch vectors", "src/blockoperator.cpp")],
  observe=["results of each form against the defining matrix", "calls and sizes seen by user operators", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
