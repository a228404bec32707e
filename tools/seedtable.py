#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (i, m["needs"], m["property"]))
l = open(V + "/DESIGN.md").read().split("\n")
a = l.index(rows[0]); b = a
while b < len(l) and l[b].startswith("|"): b += 1
open(V + "/DESIGN.md", "w").write("\n".join(l[:a] + rows + l[b:]))
print(len(rows) - 2, "planted bugs")
