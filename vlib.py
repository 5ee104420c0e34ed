"""Build and run machinery shared by every check: compiles the harnesses together with
/repo's current sources, runs the workloads under the monitors, turns what the monitors
saw into a three-valued verdict (held / violated / error) and writes the evidence."""
import fcntl, glob, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 4)

SUITESPARSE = "/usr/include/suitesparse"
INC = ["-I" + REPO + "/include", "-I" + REPO + "/modules/sparsesolver/include",
       "-I" + REPO + "/modules/partition/include", "-I" + SUITESPARSE, "-I" + HARNESS]
LIBS = ["-lumfpack", "-lmetis", "-llapack", "-lblas", "-lpthread"]
WARN = ["-w"]
# binaries that need more than the library: extra include directories, sources of further modules, headers they depend on
MODULES = {
    "par": dict(inc=["-I" + HARNESS + "/par", "-I" + REPO + "/modules/parlinalgcpp/include"],
                srcs=REPO + "/modules/parlinalgcpp/src/*.cpp", hdrs=[REPO + "/modules/parlinalgcpp/include/*", HARNESS + "/par/*.h"]),
}
WRAPPED = ("dgemm_ dgesvd_ dgeqp3_ dorgqr_ dgetrf_ dgetri_ dsyev_ umfpack_di_symbolic umfpack_di_numeric umfpack_di_solve "
           "umfpack_di_free_symbolic umfpack_di_free_numeric").split()
WRAP = ["-Wl,--wrap=" + w for w in WRAPPED]

VARIANTS = {
    # name: (compiler, flags, link flags)
    "asan": (["g++"], ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"], ["-fsanitize=address,undefined"]),
    # as users ship it: optimised, assertions compiled out
    "rel": (["g++"], ["-std=c++11", "-O2", "-DNDEBUG"], []),
    # assertions on, no libstdc++ container checks: what stops a bad call must be the library itself
    "contract": (["g++"], ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                           "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"], ["-fsanitize=address,undefined"]),
    "vg": (["g++"], ["-std=c++11", "-g", "-O1"], []),
    # the distributed module's OpenMP regions, over the run-time library in harness/par/team.cpp
    "omp": (["g++"], ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fopenmp", "-DHYPRE_USING_OPENMP",
                      "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"], ["-fsanitize=address,undefined"]),
    "omptsan": (["g++"], ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fopenmp", "-DHYPRE_USING_OPENMP", "-DNDEBUG"], ["-fsanitize=thread"]),
    "tsan": (["g++"], ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DNDEBUG"], ["-fsanitize=thread"]),
}


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def _hash_inputs(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _headers():
    pats = [REPO + "/include/*", REPO + "/modules/sparsesolver/include/*", REPO + "/modules/partition/include/*"]
    out = []
    for p in pats:
        out += [f for f in glob.glob(p) if os.path.isfile(f)]
    return out


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/modules/sparsesolver/src/*.cpp"))
    if not s:
        raise HarnessError("no library sources under " + REPO)
    return s


def module_sources(binary):
    return sorted(glob.glob(MODULES[binary]["srcs"])) if binary in MODULES else []


def _compile_one(cc, flags, src, deps, tag):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    key = _hash_inputs(deps + [src], " ".join(cc + flags) + tag)
    obj = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".", "_"), key)
    if os.path.exists(obj):
        return obj, None
    lockp = obj + ".lock"
    with open(lockp, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run(cc + flags + WARN + INC + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return None, "%s:\n%s" % (src, p.stdout[-3000:])
        os.rename(tmp, obj)
    try:
        os.unlink(lockp)
    except OSError:
        pass
    return obj, None


def build(wanted):
    """wanted: list of (variant, binary, [harness sources], [link flags]) -> {(variant, binary): path}"""
    hdrs = _headers()
    hh = sorted(glob.glob(HARNESS + "/*.hpp"))
    jobs = {}
    for variant, binary, srcs, link in wanted:
        cc, flags, _ = VARIANTS[variant]
        for s in lib_sources():
            jobs.setdefault((variant, s), (cc, flags, s, hdrs))
        mod = MODULES.get(binary)
        mh = [f for p in mod["hdrs"] for f in glob.glob(p) if os.path.isfile(f)] if mod else []
        for s in srcs:
            sp = os.path.join(HARNESS, s)
            own = mod and os.path.basename(s) not in ("common.cpp", "boundary.cpp")
            jobs.setdefault((variant, sp), (cc, flags + (mod["inc"] if own else []), sp, hdrs + hh + (mh if own else [])))
        for s in module_sources(binary):
            jobs.setdefault((variant, s), (cc, flags + mod["inc"], s, hdrs + mh))
    res, errs = {}, []
    items = list(jobs.items())
    # longest first: harness units are the slow ones
    items.sort(key=lambda kv: -os.path.getsize(kv[1][2]) - (10**6 if kv[0][1].startswith(HARNESS) else 0))
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                if not items:
                    return
                k, (cc, flags, s, deps) = items.pop(0)
            o, e = _compile_one(cc, flags, s, deps, "")
            with lock:
                if e:
                    errs.append(e)
                else:
                    res[k] = o
    th = [threading.Thread(target=worker) for _ in range(JOBS)]
    [t.start() for t in th]
    [t.join() for t in th]
    if errs:
        raise HarnessError("compilation failed\n" + "\n".join(errs)[:6000])
    out = {}
    for variant, binary, srcs, link in wanted:
        cc, flags, ll = VARIANTS[variant]
        objs = [res[(variant, os.path.join(HARNESS, s))] for s in srcs] + [res[(variant, s)] for s in lib_sources() + module_sources(binary)]
        key = hashlib.sha256(" ".join(objs + ll + link + WRAP).encode()).hexdigest()[:16]
        exe = "%s/%s-%s-%s" % (BUILD, binary, variant, key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            p = subprocess.run(cc + ll + objs + link + WRAP + LIBS + ["-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise HarnessError("link failed: %s\n%s" % (binary, p.stdout[-4000:]))
            os.rename(tmp, exe)
        out[(variant, binary)] = exe
    return out


def prune_build(max_bytes=3 << 30):
    """dev convenience: drop the oldest cached objects when the cache grows"""
    fs = [f for f in glob.glob(BUILD + "/*") + glob.glob(BUILD + "/obj/*") if os.path.isfile(f)]
    fs.sort(key=lambda f: os.path.getmtime(f))
    tot = sum(os.path.getsize(f) for f in fs)
    while fs and tot > max_bytes:
        f = fs.pop(0)
        if time.time() - os.path.getmtime(f) < 3600:
            break
        tot -= os.path.getsize(f)
        try:
            os.unlink(f)
        except OSError:
            pass


# ------------------------------------------------------------------- running
ENV_BASE = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/nonexistent",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:quarantine_size_mb=32:max_allocation_size_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=98:second_deadlock_stack=1",
}


def cpu_seconds(pid):
    """processor time used so far by a running process, all its threads (0.0 once it is gone)"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            a = f.read().rsplit(")", 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def classify(stderr, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,160})", stderr)
    if m:
        return "ubsan-" + re.sub(r"[^a-z ]", "", re.sub(r"'[^']*'|0x[0-9a-f]+|-?\d+", "", m.group(1)))[:50].strip().replace(" ", "-")
    if "WARNING: ThreadSanitizer" in stderr:
        return "tsan-" + re.search(r"ThreadSanitizer: ([\w -]+)", stderr).group(1).strip().replace(" ", "-")
    if "terminate called" in stderr:
        return "terminate"
    if "Assertion" in stderr:
        return "assertion"
    if rc is not None and rc < 0:
        return "signal-%d" % -rc
    return "exit-%s" % rc


def summarize(stderr):
    keep = []
    for l in stderr.splitlines():
        if re.search(r"ERROR: |runtime error|Assertion|SUMMARY|terminate|what\(\)|ThreadSanitizer|^\s+#\d+ .*(/repo/|/harness/)|==\d+== (Invalid|Conditional|Use of|Syscall|   (at|by) )", l):
            keep.append(l.strip())
        if len(keep) > 25:
            break
    if not keep:
        keep = stderr.splitlines()[-5:]
    return "\n".join(keep)[:2500]


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.violations, self.samples = [], []
        self.events, self.evals, self.nontrivial = {}, 0, 0
        self.sigs = set()
        self.per_family = {}
        self.errors = []
        self.crashes = {}
        self.stop = False
        self.stop_on_hang = True
        self.ntask = 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def _spawn(self, exe, variant, fam, start, n, extra, wrap):
        with self.lock:
            self.ntask += 1
            t = self.ntask
        base = "%s/t%d" % (self.work, t)
        scratch = base + ".d"
        os.mkdir(scratch)
        cmd = list(wrap) + [exe, "--fam", fam, "--start", str(start), "--n", str(n), "--seed", str(self.seed),
                            "--out", base + ".out", "--shm", base + ".shm", "--scratch", scratch] + extra
        if self.tier == "thorough":
            cmd.append("--thorough")
        env = dict(ENV_BASE)
        env["TMPDIR"] = scratch
        with open(base + ".err", "wb") as ef:
            def pre():
                os.setsid()
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
                if variant in ("rel", "vg") and not wrap:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch, preexec_fn=pre)
        return p, base

    def _shm(self, base):
        try:
            with open(base + ".shm", "rb") as f:
                d = f.read(4096)
            idx, beat = struct.unpack_from("qq", d, 0)
            fam = d[16:80].split(b"\0")[0].decode(errors="replace")
            step = d[80:200].split(b"\0")[0].decode(errors="replace")
            return idx, beat, fam, step
        except Exception:
            return None

    def run_range(self, exe, variant, fam, start, n, limit, extra=(), wrap=()):
        """Runs cases [start, start+n); survives crashing cases. Returns nothing; records everything."""
        end = start + n
        retried = None
        while start < end:
            with self.lock:
                if self.stop:
                    return
                if self.crashes.get((variant, fam), 0) >= 3:
                    return
            p, base = self._spawn(exe, variant, fam, start, end - start, list(extra), list(wrap))
            last, last_t, last_c, hung = None, time.time(), 0.0, False
            while True:
                try:
                    rc = p.wait(timeout=0.5 if last is None else 2.0)
                    break
                except subprocess.TimeoutExpired:
                    s = self._shm(base)
                    if s and (last is None or s[1] != last) and not self.stop:
                        last, last_t, last_c = s[1], time.time(), cpu_seconds(p.pid)
                    elif self.stop or cpu_seconds(p.pid) - last_c > limit or time.time() - last_t > 6 * limit:
                        # processor time decides: a busy machine stretches the clock, not the work
                        hung = not self.stop
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        rc = p.wait()
                        break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            with open(base + ".err", "rb") as f:
                err = f.read(200000).decode(errors="replace")
            done = self._collect(base, variant, fam)
            s = self._shm(base)
            shutil.rmtree(base + ".d", ignore_errors=True)
            for e in (".out", ".err", ".shm"):
                try:
                    os.unlink(base + e)
                except OSError:
                    pass
            if done and rc == 0:
                return
            if done and rc == 98:  # ThreadSanitizer: reports were printed, the run went on
                self._tsan(err, variant, fam, start)
                return
            if done and rc != 0 and wrap:  # valgrind found errors; parsed by caller via err
                self._valgrind(err, variant, fam, start, rc)
                return
            if rc == -signal.SIGKILL and not hung and self.stop:
                return
            if rc == 3 or s is None or not s[2]:
                with self.lock:
                    self.errors.append("harness did not start: %s rc=%s %s" % (fam, rc, err[-500:]))
                return
            idx = s[0]
            if rc == -signal.SIGKILL and not hung:
                if retried == idx:
                    with self.lock:
                        self.errors.append("case %s #%d was killed twice (memory?)" % (fam, idx))
                    return
                retried = idx
                start = idx
                continue
            if hung:
                if retried != idx:
                    retried = idx
                    limit *= 2
                    start = idx
                    continue
                self._add(variant, fam, idx, "hang", s[3], "the case used over %d s of processor time twice without finishing" % limit, "")
                with self.lock:
                    self.stop = self.stop_on_hang  # a confirmed hang is a verdict; the remaining work would only wait as well
            else:
                kind = classify(err, rc)
                self._add(variant, fam, idx, "%s@%s" % (kind, s[3]), s[3], summarize(err), "")
            with self.lock:
                self.crashes[(variant, fam)] = self.crashes.get((variant, fam), 0) + 1
                self.evals += max(0, idx - start + 1)
                self.per_family[fam] = self.per_family.get(fam, 0) + max(0, idx - start + 1)
            start = idx + 1

    def _tsan(self, err, variant, fam, start):
        blocks = re.split(r"={10,}\n", err)
        seen = set()
        for b in blocks:
            if "WARNING: ThreadSanitizer" not in b:
                continue
            key = "|".join(re.findall(r"#\d+ ([^\s(]+)", b)[:4])
            if key in seen:
                continue
            seen.add(key)
            self._add(variant, fam, start, classify(b, 98), "", b[:2000], "")
            if len(seen) > 5:
                break

    def _valgrind(self, err, variant, fam, start, rc):
        if rc == 97:
            self._add(variant, fam, start, "valgrind", "", summarize(err) + "\n" + err[:1500], "")
        else:
            with self.lock:
                self.errors.append("valgrind run of %s failed rc=%s: %s" % (fam, rc, err[-800:]))

    def _add(self, variant, fam, idx, key, step, detail, sample):
        with self.lock:
            self.violations.append(dict(variant=variant, fam=fam, idx=idx, key=key, step=step, detail=detail, sample=sample))

    def _collect(self, base, variant, fam):
        done = False
        try:
            with open(base + ".out") as f:
                lines = f.read().splitlines()
        except OSError:
            return False
        for l in lines:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            with self.lock:
                if d["t"] == "V":
                    self.violations.append(dict(variant=variant, fam=d["fam"], idx=d["idx"], key=d["key"], step=d["step"],
                                                detail=d["detail"], sample=d["sample"]))
                elif d["t"] == "S":
                    self.samples.append(dict(family=d["fam"], case=d["idx"], build=variant, input=d["sample"]))
                elif d["t"] == "E":
                    done = True
                    self.evals += d["evals"]
                    self.nontrivial += d["nontrivial"]
                    self.per_family[fam] = self.per_family.get(fam, 0) + d["evals"]
                    for k, v in d["events"].items():
                        self.events[k] = self.events.get(k, 0) + v
                    self.sigs.update(d["sigs"])
        return done

    def run_tasks(self, tasks):
        """tasks: list of dict(exe, variant, fam, start, n, limit, extra, wrap)"""
        tasks = list(tasks)

        def worker():
            while True:
                with self.lock:
                    if not tasks:
                        return
                    t = tasks.pop(0)
                try:
                    self.run_range(t["exe"], t["variant"], t["fam"], t["start"], t["n"], t.get("limit", 30),
                                   t.get("extra", ()), t.get("wrap", ()))
                except Exception as e:  # a bug of ours: never a verdict
                    with self.lock:
                        self.errors.append("runner: %r on %s" % (e, t["fam"]))
        th = [threading.Thread(target=worker) for _ in range(JOBS)]
        [t.start() for t in th]
        [t.join() for t in th]


# ------------------------------------------------------------ known findings
def load_known(prop):
    """known: property=<id> family=<fam> key=<regex> | <what fails>"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) family=(\S+) key=(\S+) \| (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(fam=m.group(2), key=re.compile(m.group(3) + r"\Z"), what=m.group(4), raw=l.strip()))
    return out
