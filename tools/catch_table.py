#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catches.txt
(lines `id result`, written by `seed.py catch`)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = "## Planted bugs\n"
res = {}
f = os.path.join(V, "tools", "catches.txt")
if os.path.exists(f):
    for l in open(f):
        a = l.split(None, 1)
        if len(a) == 2:
            res[a[0]] = a[1].strip()
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "?")))
d = open(os.path.join(V, "DESIGN.md")).read()
i = d.find(head)
if i >= 0:
    d = d[:i]
d = d.rstrip() + "\n\n" + head + """
Each is in `seeded/<id>` with a demonstration. "by" names the check that reports it (its own property's quick check) or says that none does.

| id | property | needs | by |
|----|----------|-------|----|
""" + "\n".join(rows) + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(d)
