#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (never used by a check)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs: gen/design_table.py -->\n"
o = "| bug | property = check that catches it | what it breaks |\n|---|---|---|\n"
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    o += "| %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"))
s = open(H + "/DESIGN.md").read().split(MARK)[0]
open(H + "/DESIGN.md", "w").write(s + MARK + o)
