#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| bug (check = prefix) | needs | strengthened by |"
first = json.load(open(os.path.join(HERE, "tools", "first_missed.json")))
root = os.path.join(HERE, "seeded")
rows = [HEAD, "|---|---|---|"]
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    rows.append("| %s%s | %s | %s |" % (d, " *" if d in first else "", m["needs"].replace("|", "/").rstrip("."), first.get(d, "")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
with open(path, "w") as f:
    f.write(text[:text.index(HEAD)] + "\n".join(rows) + "\n")
