#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.txt
(lines `ID CHECK harness`, as found by running each property's quick check on each change)."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for l in open(R + "/tools/caught.txt"):
    i, c, h = l.rstrip("\n").split(" ", 2)
    by.setdefault(i, []).append((c, h))
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | " + ", ".join(f"{c} \"{h}\"" for c, h in by.get(i, [])) + " |")
p = R + "/DESIGN.md"; t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
