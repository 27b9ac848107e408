#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C = json.load(open(R + "/tools/caught.json"))
s = open(R + "/DESIGN.md").read()
h = "|-----|----------------|-----------|\n"
out = s[:s.index(h, s.index("## 4. Planted bugs")) + len(h)]
for d in sorted(glob.glob(R + "/seeded/B*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    out += "| %s | %s (%s) | %s |\n" % (i, m["what_it_breaks"], m["needs"], C.get(i, "none"))
open(R + "/DESIGN.md", "w").write(out)
