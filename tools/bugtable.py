#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "## Planted bugs\n"
text = open(here + "/DESIGN.md").read().split(mark)[0]
rows = ""
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    rows += f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(here + "/DESIGN.md", "w").write(text + mark + """
Each was written from the statement of a property and the code, confirmed to pass the unit tests, and is caught by the quick
check of the property in the second column with seed 1. Several were missed at first; these led to the suites *long* (C01, C03,
C06, ...), *literals* (C09), *large* (C11), *atan2-symbolic* (C18), *poles* (C02), *powers* (C03), *fresh* (C13), longer names of symbols (C13), text without a terminating
null character (C20) and the complete classification of irrational constant sums (C16).

| bug | caught by | needs | what breaks |
|-----|-----------|-------|-------------|
""" + rows)
