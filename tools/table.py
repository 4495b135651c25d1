#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (catch results: tools/caught.json, written by catch.sh)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(root, "tools/caught.json")))
rows = ["| change | check | needs | caught by the check |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), c.get(i, "not run")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
k = s.find("@TABLE@")
if k < 0:
    k = s.index("| change | check |")
open(p, "w").write(s[:k] + "\n".join(rows) + "\n")
