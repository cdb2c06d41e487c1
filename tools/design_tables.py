#!/usr/bin/env python3
"""Rewrites the generated tables (findings, planted bugs) at the end of DESIGN.md."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "<!-- generated by tools/design_tables.py from here on -->\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark
s += "\n## Genuine defects found\n\nEvery one is shown by an input, history or schedule against the real code; `known_findings.txt` is the authoritative list.\n\n| property | state | what failed |\n|---|---|---|\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: property="):
        _, pr, c, t = l.strip().split(" ", 3); s += "| %s | fixed in %s | %s |\n" % (pr[9:], c, t)
    elif l.startswith("known: property="):
        _, pr, t = l.strip().split(" ", 2); s += "| %s | known, not repaired | %s |\n" % (pr[9:], t)
s += "\n## Planted bugs (`seeded/`)\n\nEach passes the 504 tests, fails its demonstration, and is caught by the quick check of its property.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open(p, "w").write(s)
