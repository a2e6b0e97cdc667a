#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (section 8)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted((json.load(open(m))["property"], os.path.basename(os.path.dirname(m)), json.load(open(m))["needs"])
              for m in glob.glob(os.path.join(V, "seeded", "*", "meta.json")))
t = "| check | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (p, i, n.replace("|", "/")) for p, i, n in rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
if a not in s:
    s = s.replace("SEEDTABLE\n", a + b + "\n")
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
