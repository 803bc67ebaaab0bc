#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| id | caught by | change | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m.get("caught_by", m["property"] + " quick"),
                m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
t = open("DESIGN.md").read()
head = t.split("## Planted bugs and which checks catch them")[0]
open("DESIGN.md", "w").write(head + "## Planted bugs and which checks catch them\n\n" + "\n".join(rows) + "\n")
