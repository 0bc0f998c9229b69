#!/usr/bin/env python3
"""Rewrites the catch table at the end of DESIGN.md from seeded/*/meta.json and the output of `plant.py check`."""
import json, os, sys, re
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(c\d\d-\S+) (.*)", l)
        if m: res[m[1]] = [x.split(":")[0] for x in m[2].split() if x.endswith(":CAUGHT")]
rows = {}
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.setdefault(m["property"], []).append((i, res.get(i)))
out = ["| property | planted bugs caught by its check | not caught |", "|---|---|---|"]
for p in sorted(rows):
    c = [i[4:] for i, r in rows[p] if r and p in r]
    n = [i[4:] for i, r in rows[p] if not (r and p in r)]
    out.append(f"| {p} | {', '.join(c)} | {', '.join(n) or '-'} |")
t = open("/verif/DESIGN.md").read()
mark = "<!-- catch table -->\n"
t = t.split(mark)[0] + mark + "\n".join(out) + "\n"
open("/verif/DESIGN.md", "w").write(t)
print(sum(len(v) for v in rows.values()), "plants;", [i for v in rows.values() for i, r in v if not r])
