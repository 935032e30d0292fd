#!/usr/bin/env python3
"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
caught = json.load(open("tools/caught.json"))
rows = ["| change | property | needs | caught by check(s) |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {' '.join(m['needs'].split())} | {', '.join(sorted(set(caught.get(i, [])))) or 'not caught'} |")
s = open("DESIGN.md").read()
head = s.index("## Planted changes")
intro = "## Planted changes\n%d changes; every one was verified (applies, builds, stable tests pass, demonstration fails only with it) by `tools/plant.py`.\n\n" % (len(rows) - 2)
open("DESIGN.md", "w").write(s[:head] + intro + "\n".join(rows) + "\n")
