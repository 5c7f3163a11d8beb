#!/usr/bin/env python3
"""Decide one property from the source of the repository: check.py PROPERTY [quick|thorough]

exit 0: the property holds on everything analysed (or only known findings fail)
exit 1: a violation; exit 2: the analysis could not find what it analyses
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import repo as R, judge                      # noqa: E402
from sa.interp import Diverge                         # noqa: E402
from sa.props.registry import REGISTRY               # noqa: E402


def known():
    """KNOWN: property=<id> key=<obligation> :: <what fails>; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: property="):
                head, _, text = line[len("known: property="):].partition(" :: ")
                prop, _, key = head.partition(" key=")
                out[(prop.strip(), key.strip())] = text.strip()
    return out


def missing(tb):
    """what a law was reading when it was not there"""
    line = ""
    for fr in traceback.extract_tb(tb):
        if os.sep + "props" + os.sep in fr.filename:
            line = fr.line
    return (line or "")[:200]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    entry = REGISTRY[prop]
    repo = R.Repo()
    ctx = judge.Ctx(repo, prop, tier)
    for fname in entry["checks"]:
        modn, _, fn = fname.rpartition(".")
        try:
            getattr(importlib.import_module("sa.props." + modn), fn)(ctx)
        except R.Broken as e:
            ctx.res.und("analysis %s" % fname, "%s" % modn, "the analysis could not follow the code: %s" % e)
        except Diverge:
            ctx.res.bad("what %s reads of the result" % fname, modn, "a value the property is about is missing from the result (%s)" % missing(sys.exc_info()[2]))
        except Exception as e:
            ctx.res.und("analysis %s" % fname, "%s" % modn, "the analysis could not follow the code: %s: %s" % (type(e).__name__, e))
            traceback.print_exc()
    res = ctx.res
    kn = known()
    found, listed = [], []
    for name, status, where, detail in res.obl:
        if status == "violated":
            key = "%s | %s" % (where, name)
            (listed if (prop, key) in kn else found).append((name, where, detail, key))
    if not any(s in ("holds", "violated") for _, s, _, _ in res.obl):
        print("ERROR: no obligation was decided for %s" % prop)
        return 2
    count = {s: sum(1 for o in res.obl if o[1] == s) for s in ("holds", "violated", "undecided")}
    digest = hashlib.sha256("".join(repo.modules[m].src for m in sorted(repo.modules)).encode()).hexdigest()[:16]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": entry["rule"],
            "source_digest": digest,
            "modules_parsed": len(repo.modules),
            "functions_analysed": sorted(res.analysed),
            "obligations": len(res.obl),
            "discharged": count["holds"],
            "undecided": count["undecided"],
            "draws_per_comparison": ctx.seeds,
            "samples": [{"obligation": n, "status": s, "where": w, "detail": str(d)[:300]} for n, s, w, d in res.obl[:400]],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"what": n, "where": w, "detail": str(d)[:1000]} for n, w, d, _ in found],
        "assumptions": entry.get("assumes", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    for name, where, detail, key in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, kn[(prop, key)]))
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d functions analysed)" % (
        prop, len(res.obl), count["holds"], count["undecided"], count["violated"], len(res.analysed)))
    if res.lost:
        print("  not followed: %s" % res.lost)
    for n, s, w, d in res.obl:
        if s == "undecided":
            print("  undecided: %s at %s: %s" % (n, w, str(d)[:200]))
    if found:
        for name, where, detail, _ in found:
            print("  violated: %s\n    at %s\n    %s" % (name, where, str(detail)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except R.Broken as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
