#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md and the planted bugs."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("SEEDED_TABLE", "\n".join(rows)))
