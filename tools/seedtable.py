#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    c = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    rows.append((m["property"], i, c(m["needs"]), c(m["what_it_breaks"])))
rows.sort()
D = open(R + "/DESIGN.md").read()
D = D.split("\n## Table of planted bugs")[0].rstrip("\n")
D += "\n\n## Table of planted bugs\n\nEach is caught by the quick check of the property in the first column.\n\n"
D += "| caught by | id | needs | breaks |\n|---|---|---|---|\n"
D += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(R + "/DESIGN.md", "w").write(D)
