#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in.md and the planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open(os.path.join(here, "DESIGN.in.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(s.replace("@@CATCHES@@", "\n".join(rows)))
