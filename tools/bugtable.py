#!/usr/bin/env python3
"""Lists the planted bugs per property (the table of DESIGN.md, section 7)."""
import json, os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded"); m = {}
for i in sorted(os.listdir(R)): m.setdefault(json.load(open(os.path.join(R, i, "meta.json")))["property"], []).append(i)
print("| property | planted bugs |\n|---|---|")
for p in sorted(m): print("| %s | %s |" % (p, ", ".join("`%s`" % i for i in m[p])))
