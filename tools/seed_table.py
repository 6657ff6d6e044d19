"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json and seeded/RESULTS.json (developer tool, not part of a check)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % i
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "?")))
t = open(V + "/DESIGN.md").read()
head = t[:t.index("## Planted bugs")]
open(V + "/DESIGN.md", "w").write(head + """## Planted bugs

In `/verif/seeded/` (each confirmed: applies, builds, 27 tests pass, demonstration 0/non-0). `python3 check.py <property>` with
the patch applied, quick tier, seed 1. Where a first version of the check missed the change, the note says what was added.

""" + "\n".join(rows) + "\n")
