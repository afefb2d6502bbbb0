#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the tables of seeded changes filled in."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
text = open(here + "/design.md").read()
notes = {}
for line in open(here + "/missed.txt"):
    if "|" in line:
        k, v = line.split("|", 1)
        notes[k.strip()] = v.strip()
rows = ["| change | property | needs | first run of the check |", "| --- | --- | --- | --- |"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {notes.get(d, 'caught')} |")
text = text.replace("@SEEDS@", "\n".join(rows))
open(root + "/DESIGN.md", "w").write(text)
