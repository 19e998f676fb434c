#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and seeded results given on stdin ("CAUGHT id prop ...")."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in sys.stdin:
    m = re.match(r"(CAUGHT|MISSED) (\S+) (\S+)", l)
    if m:
        res[m[2]] = m[1].lower()
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, res.get(i, "?"), m["needs"].replace("|", "/")))
rows.sort()
t = "## Planted bugs and what catches them\n\nEach is judged by its own property's quick check.\n\n| property | bug | result | needs |\n|---|---|---|---|\n"
t += "".join(f"| {a} | {b} | {c} | {d} |\n" for a, b, c, d in rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"@@PLANTED@@\n?|## Planted bugs and what catches them.*?(?=\n## |\Z)", lambda _: t, s, count=1, flags=re.S)
open(p, "w").write(s)
