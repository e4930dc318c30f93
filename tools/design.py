#!/usr/bin/env python3
"""Rewrites the generated table in DESIGN.md (between the two markers) from tools/props.py."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import P
path = os.path.join(here, "..", "DESIGN.md")
s = open(path).read()
a, b = "<!-- table begin -->", "<!-- table end -->"
rows = ["| id | property | deciding method | domain |", "|---|---|---|---|"]
for p in P:
    rows.append("| %s | %s | %s | %s |" % (p["id"], p["title"], p["technique"], p["qtext"]))
s = s[:s.index(a)] + a + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
import json
caught = json.load(open(os.path.join(here, "caught.json"))) if os.path.exists(os.path.join(here, "caught.json")) else {}
rows = ["| bug | property | needs | reported by |", "|---|---|---|---|"]
sd = os.path.join(here, "..", "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?")))
a, b = "<!-- seeded begin -->", "<!-- seeded end -->"
s = s[:s.index(a)] + a + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(path, "w").write(s)
