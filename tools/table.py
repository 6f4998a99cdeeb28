#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((m["property"], os.path.basename(d), m["needs"]))
rows.sort()
text = open("DESIGN.md").read()
head, sep, _ = text.partition("| bug | caught by | needs |\n|---|---|---|\n")
assert sep
open("DESIGN.md", "w").write(head + sep + "".join("| %s | %s | %s |\n" % (b, p, n) for p, b, n in rows))
