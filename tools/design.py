#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
the last run of tools/catch.py -a (seeded/CAUGHT.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/seeded/CAUGHT.json")) if os.path.exists(V + "/seeded/CAUGHT.json") else {}
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, [])) or '-'} |".replace("\n", " "))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
