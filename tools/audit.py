#!/usr/bin/env python3
"""Sensitivity of every obligation to every input it mentions (a development tool): an input whose change never shows is not checked."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import expr as X, judge, repo
from sa.props.registry import REGISTRY

orig_leaf, orig_atom = X.Val.leaf, X.Val.atomv
PERT = [None]


def leaf(self, e, lam):
    v = orig_leaf(self, e, lam)
    if PERT[0] == ("var", e.args[0]) and v.dtype != bool:
        v = v * 1.11
    return v


def atomv(self, name):
    v = orig_atom(self, name)
    return v * 1.11 if PERT[0] == ("atom", name) else v


X.Val.leaf, X.Val.atomv = leaf, atomv
orig_equal = judge.equal
cur = [None]
out = []


def equal(a, b, seeds, spec=None, pre=None, rtol=1e-7):
    r = orig_equal(a, b, seeds, spec, pre, rtol)
    ls = {}
    for l in X.leaves(b):
        if l.op in ("var", "atom"):
            ls[(l.op, l.args[0])] = l
    for k in ls:
        seen = False
        for s in range(1, 13):
            PERT[0] = None
            try:
                v0 = X.Val(judge.BASE + s, spec).ev(b)
                PERT[0] = k
                v1 = X.Val(judge.BASE + s, spec).ev(b)
            except X.Undecided:
                continue
            if not X.same(v1, v0, rtol):
                seen = True
                break
        PERT[0] = None
        if not seen and not k[1].startswith("unit:"):
            out.append((cur[0], k))
    return r


judge.equal = equal
R = repo.Repo()
for p in (sys.argv[1:] or REGISTRY):
    c = judge.Ctx(R, p)
    oe, oc = c.eq, c.eqcol

    def eq(name, *a, **k):
        cur[0] = name
        return oe(name, *a, **k)
    c.eq = eq
    for f in REGISTRY[p]["checks"]:
        mod, _, fn = f.rpartition(".")
        try:
            getattr(importlib.import_module("sa.props." + mod), fn)(c)
        except Exception as e:
            print(p, "error", e)
    agg = {}
    for n, k in out:
        agg.setdefault(k, []).append(n)
    print(p, len(c.res.obl), "obligations;", "insensitive:" if agg else "all sensitive")
    for k, n in agg.items():
        print("   ", k, len(n), n[0])
        if os.environ.get("FULL"):
            for x in n:
                print("        ", x)
    out.clear()
