#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed-notes.txt"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
p = V + "/tools/seed-notes.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            k, v = l.strip().split(" ", 1)
            notes[k] = v
rows = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', '/')} | {notes.get(i, 'yes')} |")
t = open(V + "/DESIGN.md").read()
a = t.index("## Planted bugs\n") + len("## Planted bugs\n")
b = t.find("\n## ", a)
tail = t[b:] if b > 0 else ""
open(V + "/DESIGN.md", "w").write(t[:a] + "\n" + "\n".join(rows) + "\n" + tail)
