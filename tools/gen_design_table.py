#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools/caught.json")))
rows = ["<!-- table -->", "| planted bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    one = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {one(m['what_it_breaks'])} | {one(m['needs'])} | {', '.join(caught.get(i, [])) or '-'} |")
rows.append("<!-- /table -->")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
t = "\n".join(rows)
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
