#!/usr/bin/env python3
"""Writes BOUNDS.md, the list of what each harness explores, from the evidence of the last quick run of every check (run by hand after the bounds change)."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); titles[d["id"]] = d["title"]
o = ["# What each check explores (quick tier)", "", "Written by `tools/gen_bounds.py` from the evidence of a run; the thorough tier runs the same harnesses with larger bounds. Every line is exhaustive within its bound.", ""]
total = 0
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(f)); assert d["tier"] == "quick", f
    o += ["## %s %s (%s)" % (d["property"], titles[d["property"]], d["level"]), "", "| harness | bound | executions |", "|---|---|---|"]
    for h in d["coverage"]["harnesses"]:
        total += h["executions"]
        b = h["bound"]
        if len(b) > 420: b = b[:400] + " ..."
        o.append("| %s | %s | %d |" % (h["harness"], b.replace("|", "\\|").replace("\n", " "), h["executions"]))
    o.append("")
o.append("%d executions in all." % total)
open(os.path.join(V, "BOUNDS.md"), "w").write("\n".join(o) + "\n")
print(total)
