"""Appends the seeded-bug table to DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
S = V + "/seeded"
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(S + "/" + d + "/meta.json"))
    note = m.get("caught", "yes")
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), note))
tab = "| change | property | needs | breaks | caught by its check |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + tab + m.group(2), s, flags=re.S)
open(p, "w").write(s)
