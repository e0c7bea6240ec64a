#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (written by plant.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json")); first_missed = set(open(V + "/tools/first_missed.txt").read().split())
rows = ["| change | what it needs | caught by (violation class) |", "|---|---|---|"]
n = k = 0
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json")); r = c.get(i, {}); n += 1; k += bool(r.get("class"))
    rows.append("| %s%s | %s | %s |" % (i, " (*)" if i in first_missed else "", m["needs"].replace("|", "/"), "%s (%s)" % (r["check"], r["class"]) if r.get("class") else "MISSED"))
t = open(V + "/DESIGN.md").read(); a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = t[:t.index(a) + len(a)] + "\n%d planted, %d caught by the check of their property in the quick tier; (*): first missed, caught after the check was strengthened.\n\n" % (n, k) + "\n".join(rows) + "\n" + t[t.index(b):]
open(V + "/DESIGN.md", "w").write(t); print(n, k)
