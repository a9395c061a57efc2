#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md. Results of 'seed.py check'
are kept in tools/results.json."""
import glob, json, os, re
R = "/verif"
res = json.load(open(R + "/tools/results.json")) if os.path.exists(R + "/tools/results.json") else {}
rows = ["| Bug | Property | Needs | Caught |", "|---|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {res.get(i, '?')} |")
t = open(R + "/DESIGN.md").read()
new = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
t = re.sub(r"@@TABLE@@|<!-- table -->.*?<!-- end -->", lambda _: new, t, flags=re.S)
open(R + "/DESIGN.md", "w").write(t)
