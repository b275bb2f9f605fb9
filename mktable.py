#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(\| id \| property \|.*\n\|---.*\n)((\|.*\n)+)", lambda x: x.group(1) + "\n".join(rows) + "\n", t)
open(p, "w").write(t)
