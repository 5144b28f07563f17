#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md"""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, "seeded")
rows = ["<!-- seeded -->", "| change | caught by | needs |", "|---|---|---|"]
for x in sorted(os.listdir(d)):
    with open(os.path.join(d, x, "meta.json")) as fh:
        m = json.load(fh)
    rows.append("| %s | %s | %s |" % (
        x, m["property"], " ".join(m["needs"].split())))
rows.append("<!-- /seeded -->")
p = os.path.join(HERE, "DESIGN.md")
with open(p) as fh:
    s = fh.read()
t = "\n".join(rows)
if "@@SEEDED@@" in s:
    s = s.replace("@@SEEDED@@", t)
else:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s,
               flags=re.S)
with open(p, "w") as fh:
    fh.write(s)
