"""rewrite the table of properties in DESIGN.md from the registry, the rows below and the seeded bugs"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props.registry import REGISTRY                      # noqa: E402
sys.path.insert(0, os.path.join(HERE, "tools"))
from rows import ROWS                                       # noqa: E402
from data import NA                                         # noqa: E402

seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    p = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))["property"]
    seeds.setdefault(p, []).append(d.split("-", 1)[1])
title = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    title[d["id"]] = d["title"]
out = ["<!-- table:begin (tools/design.py) -->", "| | property | checks (`sa/props/`) | oracle and cases | bounds | planted bugs caught |", "|---|---|---|---|---|---|"]
for k in sorted(title):
    if k in NA:
        out.append("| %s | %s | not applicable | %s | | |" % (k, title[k], NA[k]))
        continue
    law, bound = ROWS[k]
    out.append("| %s | %s | %s | %s | %s | %s |" % (k, title[k], " ".join("`%s`" % c for c in REGISTRY[k]["checks"]), law, bound, ", ".join(seeds.get(k, [])) or "—"))
out.append("<!-- table:end -->")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
new = "\n".join(out)
if "PLACEHOLDER_TABLE" in s:
    s = s.replace("PLACEHOLDER_TABLE", new)
else:
    s = re.sub(r"<!-- table:begin.*<!-- table:end -->", lambda m: new, s, flags=re.S)
open(f, "w").write(s)
