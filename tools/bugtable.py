#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a missed one says "missed": why)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | check | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s: %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"], m.get("missed", "yes")))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(rows) - 2)
