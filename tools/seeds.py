#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/caught.txt (bug, checks that catch it)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(f"{root}/tools/caught.txt"):
    f = l.split()
    if f and not l.startswith("#"):
        caught[f[0]] = ", ".join(f[1:])
s = open(f"{root}/DESIGN.md").read()
h = "## 6. Planted bugs"
if h in s:
    s = s[: s.index(h)].rstrip() + "\n"
s += f"\n{h}\nEach was written from a property's text, is kept in `seeded/`, passes the existing tests and shows in its own demonstration. \"Caught by\" is the quick tier, run against the patched tree.\n\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    s += f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '?')} |\n"
open(f"{root}/DESIGN.md", "w").write(s)
