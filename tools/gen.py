#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/data.py and sa/props/registry.py (a development tool)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
from data import PROPS, NA
from sa.props.registry import REGISTRY
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["title"]
        d["quantifier"] = {"over": p["over"], "text": p["for"]}
        d["why_tests_cant"] = p["tests"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("see", [])}
        f.write(json.dumps(d) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in REGISTRY:
        e = REGISTRY[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
                       "technique": e["technique"], "level": "other", "level_note": e["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q sa check.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check parses the Python sources of /repo on every run (VERIF_REPO overrides the location) and never imports or executes them. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
