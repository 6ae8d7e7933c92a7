#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import os, json, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
d = collections.defaultdict(list)
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    d[json.load(open(os.path.join(V, "seeded", b, "meta.json")))["property"]].append(b)
h = "## Planted bugs by the check that catches them\n"
s = s[:s.index(h)] + h + "\n" + "".join("* %s: %s\n" % (k, ", ".join(v)) for k, v in sorted(d.items()))
open(p, "w").write(s)
