#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = json.load(open(H + "/tools/strengthened.json"))
rows = ["| bug | check | needs | caught |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')} | {AFTER.get(i, 'caught')} |")
p = H + "/DESIGN.md"
s = open(p).read().split("<!-- table -->")[0]
open(p, "w").write(s + "<!-- table -->\n" + "\n".join(rows) + "\n")
