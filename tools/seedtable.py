#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught', 'caught')} |")
f = os.path.join(V, "DESIGN.md")
h = "## Planted bugs (seeded/) and the checks that catch them\n"
s = open(f).read().split(h)[0] + h + "| bug | caught by (quick) | needs | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f, "w").write(s)
