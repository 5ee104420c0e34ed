#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay <file> | --list"""
import argparse, json, os, re, sys, time
import vlib
from vlib import HarnessError, Runner, build, load_known, log
import props


def plan(prop, tier, exes):
    P = props.PROPS[prop]
    tasks = []
    for f in P["families"]:
        n = max(1, int(f["n"] * (1 if f.get("fixed") else P.get("scale", 1))))
        if tier != "quick":
            n = f.get("N", n * P.get("deep", 30))
        for variant in f.get("variants", P.get("variants", ["asan", "rel"])):
            exe = exes[(variant, f["bin"])]
            nn = n
            if variant == "rel":
                nn = n * f.get("rel_mult", 2)
            if variant == "vg":
                nn = f.get("vg_n", max(8, n // 40))
            wrap = props.VALGRIND if variant == "vg" else []
            chunk = max(1, min(f.get("chunk", max(400, nn // 16)), -(-nn // 4) if nn > 64 else nn))
            if tier == "thorough":
                chunk = max(chunk, nn // 40)
            s = 0
            while s < nn:
                k = min(chunk, nn - s)
                tasks.append(dict(exe=exe, variant=variant, fam=f["fam"], start=s, n=k, wrap=wrap,
                                  limit=f.get("limit", 30) * (8 if variant == "vg" else 4 if "tsan" in variant else 1)))
                s += k
    # interleave: slow variants first
    order = {"vg": 0, "tsan": 1, "omptsan": 1, "omp": 2, "contract": 2, "asan": 2, "rel": 3}
    tasks.sort(key=lambda t: order[t["variant"]])
    return tasks


def wanted(prop):
    P = props.PROPS[prop]
    w = {}
    for f in P["families"]:
        for variant in f.get("variants", P.get("variants", ["asan", "rel"])):
            b = f["bin"]
            srcs, link = props.BINARIES[b]
            w[(variant, b)] = (variant, b, srcs, link)
    return list(w.values())


def run(prop, tier, seed):
    t0 = time.time()
    P = props.PROPS[prop]
    exes = build(wanted(prop))
    tb = time.time() - t0
    R = Runner(prop, tier, seed)
    R.stop_on_hang = not P.get("keys") or bool(re.search(P["keys"], "hang"))
    try:
        R.run_tasks(plan(prop, tier, exes))
    finally:
        R.close()
    wall = time.time() - t0
    # which observations decide this property
    only = re.compile(P["keys"]) if P.get("keys") else None
    viol, other = [], []
    for v in R.violations:
        (viol if only is None or only.search(v["key"]) else other).append(v)
    known = load_known(prop)
    hit, fresh = set(), []
    for v in viol:
        k = next((k for k in known if k["fam"] == v["fam"] and k["key"].match(v["key"])), None)
        if k:
            hit.add(k["raw"])
        else:
            fresh.append(v)
    samples = []
    seen = set()
    for s in R.samples:
        if s["family"] not in seen:
            seen.add(s["family"])
            samples.append(s)
    cov = dict(evaluations=R.evals, distinct_nontrivial=len(R.sigs), rule=P["rule"], samples=samples[:12],
               nontrivial_evaluations=R.nontrivial,
               events={k: R.events[k] for k in sorted(R.events)}, per_family=R.per_family,
               builds=sorted({t for f in P["families"] for t in f.get("variants", P.get("variants", ["asan", "rel"]))}),
               build_seconds=round(tb, 1), known_findings_seen=len(hit))
    if only is not None:
        cov["observations_left_to_other_properties"] = len(other)
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get("level", "exploration"), coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k["raw"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fresh:
        seenk = {}
        n = 0
        for v in fresh:
            kk = (v["fam"], v["key"])
            seenk[kk] = seenk.get(kk, 0) + 1
            if seenk[kk] > 1 or n >= 60:
                continue
            n += 1
            path = os.path.join(vlib.VERIF, "evidence", "replay-%s-%d.json" % (prop, n))
            binname = next(f["bin"] for f in P["families"] if f["fam"] == v["fam"])
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier, binary=binname,
                               command="python3 check.py --replay " + path), f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s #%d [%s] %s at '%s': %s | %s" % (v["fam"], v["idx"], v["variant"], v["key"], v["step"],
                                                         v["detail"][:600].replace("\n", " / "), v["sample"][:200]))
        return 1
    if R.errors:
        log("ERROR: " + "\n".join(R.errors[:5]))
        return 2
    missing = [f["fam"] for f in P["families"] if not R.per_family.get(f["fam"])]
    unseen = [e for e in P.get("must_see", []) if not R.events.get(e)]
    if missing or unseen or len(R.sigs) < P.get("min_distinct", 2):
        log("ERROR: the monitors saw too little: families without a run %s, events never seen %s, distinct %d"
            % (missing, unseen, len(R.sigs)))
        return 2
    print("HELD property=%s: %d executions, %d distinct non-trivial cases, %d monitored events, %.0f s"
          % (prop, R.evals, len(R.sigs), sum(R.events.values()), wall))
    return 0


def replay(path):
    d = json.load(open(path))
    exes = build([w for w in wanted(d["property"]) if w[1] == d["binary"]])
    exe = exes[(d["variant"], d["binary"])]
    import subprocess, tempfile, shutil
    sc = tempfile.mkdtemp(prefix="verif-replay-")
    wrap = props.VALGRIND if d["variant"] == "vg" else []
    cmd = wrap + [exe, "--fam", d["fam"], "--start", str(d["idx"]), "--n", "1", "--seed", str(d["seed"]), "--replay", "--scratch", sc]
    if d.get("tier") == "thorough":
        cmd.append("--thorough")
    log(" ".join(cmd))
    try:
        return subprocess.run(cmd, env=dict(vlib.ENV_BASE, TMPDIR=sc), cwd=sc).returncode
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.list:
        for p in props.PROPS:
            print(p)
        return 0
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        return run(a.prop, tier, seed)
    except HarnessError as e:
        log("ERROR: %s" % e)
        return 2
    finally:
        vlib.prune_build()


if __name__ == "__main__":
    sys.exit(main())
