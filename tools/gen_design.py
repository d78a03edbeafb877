#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = {}
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
t = "| property | planted bugs, and what each needs to show |\n|---|---|\n"
for k in sorted(rows): t += f"| {k} | " + "; ".join(f"`{i}` ({n})" for i, n in rows[k]) + " |\n"
p = "/verif/DESIGN.md"; s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, "w").write(s)
