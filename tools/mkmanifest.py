#!/usr/bin/env python3
"""Writes ../MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if not P:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=P.get("technique", "runtime monitoring: sanitizer builds + reference-model oracle over generated workloads"),
                       level="exploration", level_note=P.get("note", "held on the executions described in the evidence file; nothing is claimed about inputs the workload does not produce. Trusts the compiler, sanitizers and the reference models in /verif/harness.")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="Every check rebuilds the library and its harness from /repo's working tree (build/ caches objects by content hash), runs the workloads on all cores and writes evidence/<id>.json. KNOWN_FINDINGS.txt lists repaired and known defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
