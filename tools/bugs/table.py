#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
out = ["| id | property | what it needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted bugs -->", "<!-- end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
print(len(out) - 2, "planted bugs")
