"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of tools/judge.py:
python3 tools/design_table.py JUDGE.LOG"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r"(\S+)\s+(caught|MISSED) rc=\d+ (\d+)s", line)
        if m:
            caught[m.group(1)] = (m.group(2), m.group(3))
rows = ["| bug | check | what it does | needs |", "|----|----|----|----|"]
for bid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))
    c = caught.get(bid, ("not judged", ""))
    rows.append("| %s | %s: %s | %s | %s |" % (bid, meta["property"], c[0], meta["what_it_breaks"], meta["needs"]))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
start, end = "<!-- planted -->\n", "<!-- /planted -->"
i, j = text.index(start) + len(start), text.index(end)
open(path, "w").write(text[:i] + "\n".join(rows) + "\n" + text[j:])
