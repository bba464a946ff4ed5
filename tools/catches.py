#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md: runs (or, with a file, reads the output of) `seed.py --check`."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- catches -->"
if len(sys.argv) > 1:
    out = open(sys.argv[1]).read()
else:
    out = subprocess.run(["python3", V + "/tools/seed.py", "--check"], stdout=subprocess.PIPE, text=True).stdout
rows = []
for line in out.splitlines():
    sid, _, rest = line.partition(" ")
    meta = os.path.join(V, "seeded", sid, "meta.json")
    if rest.split(" ")[0] not in ("CAUGHT", "MISSED") or not os.path.exists(meta):
        continue
    m = json.load(open(meta))
    rows.append((m["property"], sid, m["what_it_breaks"], rest.split(" ")[0].lower()))
table = [MARK, "", "| property | change | what it breaks | quick check of the property |", "|---|---|---|---|"]
table += ["| %s | %s | %s | %s |" % r for r in sorted(rows)]
path = os.path.join(V, "DESIGN.md")
text = open(path).read()
open(path, "w").write(text[:text.index(MARK)] + "\n".join(table) + "\n")
