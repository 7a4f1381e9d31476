#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/DESIGN.md"
s = open(p).read()
mark = "<!-- seeded -->\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" if mark in s else s.rstrip("\n") + "\n\n## Planted bugs\n\nEvery change in `seeded/` is caught by the quick check of its property.\n\n"
rows = [mark, "| change | caught by | needs |\n|---|---|---|\n"]
for n in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs'].strip().rstrip('.')} |\n")
open(p, "w").write(s + "".join(rows))
