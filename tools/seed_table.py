#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
head = open(V + "/DESIGN.md").read().split("## Planted changes\n")[0]
rows = ["## Planted changes\n", "`seeded/` holds them; each was confirmed in a scratch copy (`tools/try_seed.py`): builds, passes the stable tests,\nits demonstration passes without and fails with it. \"caught by\": the quick checks that reported it (at least its own property's was run).\n",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], ", ".join(caught.get(s, [])) or "not caught"))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
