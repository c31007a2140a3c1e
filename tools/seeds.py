#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two marks) from their meta.json files."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | manifests with | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = os.path.join(R, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
