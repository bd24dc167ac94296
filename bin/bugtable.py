#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (section 7)."""
import json
import os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], m["property"]))
