#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_rows.json, properties.jsonl, design_tail.md and the planted changes."""
import json, os, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(T, "..")
rows = json.load(open(f"{T}/design_rows.json"))
out = open(f"{T}/design_head.md").read()
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l); r = rows[p["id"]]
    out += f"**{p['id']} {p['title']}.** {r[0]}"
    if r[1]: out += f" *Bounds:* {r[1]}"
    out += f" *Cost:* {r[2]}. *Beyond the tests:* {p['why_tests_cant']}.\n\n"
out += open(f"{T}/design_tail.md").read()
out += "\n## Planted changes\n\nEach builds, passes the stable tests and fails its own demonstration. \"Caught by\" was observed with quick tiers.\n\n"
out += "| change | needs | caught by |\n|---|---|---|\n"
caught = json.load(open(f"{T}/caught.json")) if os.path.exists(f"{T}/caught.json") else {}
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    out += f"| {i} | {m['what_it_breaks']} Needs: {m['needs']} | {caught.get(i, 'not caught')} |\n"
open(f"{V}/DESIGN.md", "w").write(out)
