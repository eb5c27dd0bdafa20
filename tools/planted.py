#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
note = {"R01-negative-lookup": "missed at first; lookups of an absent family were added to the histories", "R03-partial-subdir": "missed at first; permission errors and failing reads were added to the fault model",
        "X01-no-truncate": "missed at first; old and new files of equal length and structure were added", "F01-family-include": "missed by quick at first; filters with two inclusion rules were added",
        "G01-extract-warning": "missed at first; exit status 1 and killed tools were added"}
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
extra = json.load(open("tools/planted_notes.json")) if os.path.exists("tools/planted_notes.json") else {}
note.update(extra)
rows = ["| planted change | needs | breaks | quick check of its property |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]; m = json.load(open(f))
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {m['property']} reports it" + (f" ({note[i]})" if i in note else "") + " |")
s = open("DESIGN.md").read()
a = s.index("<!-- planted -->"); b = s.index("<!-- /planted -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
