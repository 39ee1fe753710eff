#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| Bug | Breaks | Needs |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (d.split("/")[1], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = open("DESIGN.md").read()
s = s[:s.index("<!-- seeded -->")] + "<!-- seeded -->\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
