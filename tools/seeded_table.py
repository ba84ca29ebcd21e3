#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md section 7 from seeded/*/meta.json and the catalogue of
results in tools/seeded_results.json (id -> "caught" / "missed: why")."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
r = os.path.join(V, "tools/seeded_results.json")
if os.path.exists(r): res = json.load(open(r))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "?")))
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
k = s.index("<!-- table -->")
open(f, "w").write(s[:k] + "<!-- table -->\n\n" + "\n".join(rows) + "\n")
