#!/usr/bin/env python3
"""Writes DESIGN.md from design.1.md, design.2.md and the table of planted bugs
(seeded/*/meta.json and seedresults.txt, which seedrun.sh appends to)."""
import json, os, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
res = {}
for l in open(T + "/seedresults.txt"):
    f = l.split()
    if len(f) >= 4:
        res[f[0]] = (f[1], f[2], f[3])
out = open(T + "/design.1.md").read() + open(T + "/design.2.md").read()
out += """
# Planted bugs and what catches them

Each is in `seeded/ID` with a demonstration. `caught` is the quick check of the bug's own
property with VERIF_SEED=1; the time is that of the whole check, with the build and the
shrinking.

| bug | property | needs | quick check |
|---|---|---|---|
"""
n = c = 0
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    r = res.get(i)
    v = "not run" if not r else ("caught" if r[1] == "rc=1" else "**missed**") + ", " + r[2].replace("s", " s")
    n += 1; c += "caught" in v
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), v)
out += "\n%d of %d caught.\n" % (c, n)
open(V + "/DESIGN.md", "w").write(out)
print(c, "of", n)
