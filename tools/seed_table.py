#!/usr/bin/env python3
"""Writes the table of planted bugs (seeded/*/meta.json, tools/seed_results.json) at the end of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed_results.json"))
s = open(V + "/DESIGN.md").read(); i = s.index("## Planted bugs")
t = "## Planted bugs\n`tools/mkseed.py` builds each from a description, runs the demonstration with and without it, the stable tests and the quick check.\n\n| bug | needs | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); t += f"| {n} | {m['needs']} | {res.get(n, '?')} |\n"
open(V + "/DESIGN.md", "w").write(s[:i] + t)
