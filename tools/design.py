#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append((m["property"], d, m["needs"], m.get("caught_by", m["property"])))
t = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n" + "".join(
    f"| {d} | {p} | {n} | {c} |\n" for p, d, n, c in sorted(rows))
f = os.path.join(here, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f, "w").write(s)
