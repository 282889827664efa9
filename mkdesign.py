#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md, DESIGN.tail.md, checks.py, properties.jsonl, known_findings.json and the seeds' notes."""
import json, os
from checks import CHECKS, COMMON
V = os.path.dirname(os.path.abspath(__file__))
o = open(V + "/DESIGN.head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); c = CHECKS.get(p["id"])
    o += f"**{p['id']} {p['title']}.** "
    if not c: o += "Not claimed.\n\n"; continue
    o += "Harnesses: " + "; ".join(f"`{e['name']}` ({e['what']})" for e in c["entries"]) + ". Bounds: " + c["bounds"] + "."
    a = [x for x in c["assumptions"] if x not in COMMON]
    if a: o += " Assumes: " + "; ".join(a) + "."
    o += "\n\n"
fixes = "\n".join("* " + k["what"].replace("fixed: property=", "") for k in json.load(open(V + "/known_findings.json")))
seeds = json.load(open(V + "/seedtools/caught.json"))
rows = "| seed | property | caught by | note |\n|---|---|---|---|\n"
for k in sorted(seeds): rows += f"| {k} | {k[:3].upper()} | {seeds[k][0]} | {seeds[k][1]} |\n"
o += open(V + "/DESIGN.tail.md").read().replace("@FIXES@", fixes).replace("@SEEDS@", rows)
open(V + "/DESIGN.md", "w").write(o)
