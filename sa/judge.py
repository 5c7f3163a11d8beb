"""Obligations: comparison of an extracted value graph with the value the
property demands, and the collection of results per property."""
import os
import traceback

from . import expr as X
from .interp import Interp, Diverge, Missing, Num, Unk, Ref, UNDEF
from .repo import Broken
from . import stubs


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []        # (name, status, where, detail)
        self.prefix = ""
        self.analysed = set()
        self.notes = []

    def ok(self, name, where="", detail=""):
        self.obl.append((self.prefix + name, "holds", where, detail))

    lost = None   # why the analysis no longer follows every effect of the code: a difference then decides nothing

    def bad(self, name, where, detail):
        if self.lost:
            return self.und(name, where, self.lost)
        self.obl.append((self.prefix + name, "violated", where, detail))

    def und(self, name, where, detail):
        self.obl.append((self.prefix + name, "undecided", where, detail))

    def text(self, I, got, want, name, where, detail):
        """a text that must be the one required: undecided where what it is depends on something not followed"""
        from .interp import Phi
        todo, differs, unsure = [(got, False)], False, False
        while todo:
            v, u = todo.pop()
            if isinstance(v, Phi):
                names = [l.args[0] for l in X.leaves(v.cond) if l.op == "bvar"]
                u = u or any(str(n).startswith("unk") for n in names)
                todo += [(v.a, u), (v.b, u)]
            elif v != want:
                differs, unsure = True, unsure or u or type(v).__name__ == "Unk"
        if unsure:
            return self.und(name, where, detail)
        (self.bad if differs else self.ok)(name, where, detail)

    def check(self, cond, name, where, detail=""):
        (self.ok if cond else self.bad)(name, where, detail)


BASE = int(os.environ.get("VERIF_SEED", "1") or 1) * 1000003
NSEED = {"quick": 40, "thorough": 400}


def finite_enough(v):
    import numpy as np
    return bool(np.all(np.isfinite(np.asarray(v, float))))


SCALES = (0.1, 10.0, 0.01, 100.0, 1e-3, 1e3, 1e-5, 1e5)
FAR = 60          # draws of this kind per obligation


def relations(*es):
    """the comparisons of magnitudes that the graphs branch on"""
    out, todo, seen = {}, list(es), set()
    while todo:
        e = todo.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op in ("lt", "le", "eq"):
            out[e.id] = e
        todo += [x for x in e.args if isinstance(x, X.E)]
    return out


def note(V, ids, seen):
    """which outcomes these comparisons had in a draw"""
    import numpy as np
    for (i, c), v in V.memo.items():
        if i in ids:
            v = np.asarray(v, bool)
            if v.any():
                seen.setdefault(i, set()).add(True)
            if not v.all():
                seen.setdefault(i, set()).add(False)


def beyond(a, b, spec, pre, rtol):
    """two graphs that agree in ordinary draws, where a comparison has the outcome it never has in them:
    quantities are taken larger and smaller, one at a time.  None when they agree there as well"""
    import numpy as np
    rel = relations(a, b)
    if not rel:
        return None
    seen = {}
    for s in range(1, 13):
        V = X.Val(BASE + s, spec)
        try:
            V.ev(a), V.ev(b)
        except X.Undecided:
            return None
        note(V, rel, seen)
    spec = spec or {}
    left = FAR
    for i in sorted(rel):
        if len(seen.get(i, ())) != 1:
            continue
        usual = seen[i]
        names = sorted({(l.args[0], (l.rows or 1) > 1) for l in X.leaves(rel[i]) if l.op == "var"})
        ways = [(n, f, row) for n, many in names[:4] for row in ((None, 0, 1) if many else (None,)) for f in SCALES]
        for name, f, row in ways:
            far = dict(spec, scale={name: (f, row)})
            for s in (1, 2):
                if left <= 0:
                    return None
                left -= 0.1
                V = X.Val(BASE + s, far)
                try:
                    ok = V.ev(rel[i])
                    if bool(np.all(ok)) == bool(np.any(ok)) and {bool(np.all(ok))} <= usual:
                        continue
                    left -= 1
                    if pre is not None and not bool(np.all(V.ev(pre))):
                        continue
                    va, vb = V.ev(a), V.ev(b)
                except X.Undecided:
                    continue
                now = {}
                note(V, {i}, now)
                if now.get(i, usual) <= usual or not finite_enough(vb):
                    continue
                if not X.same(va, vb, rtol) and not np.max(np.abs(va * 1.0 - vb * 1.0)) <= 1e-150:
                    if despite(a, b, BASE + s, far, rtol) is None:
                        return "where %s%s is %s times its usual size, %s" % (name, "" if row is None else " of one row", f, witness(V, a, b, va, vb))
    return None


def equal(a, b, seeds, spec=None, pre=None, rtol=1e-7, far=False):
    """'same' | ('diff', text) | ('undecided', why).  pre: boolean graph that must hold for a draw to count"""
    n = und = 0
    why = None
    shown = None
    tries = 0
    s = 0
    while n < seeds and tries < seeds * 40:
        tries += 1
        s += 1
        V = X.Val(BASE + s, spec)
        if pre is not None:
            try:
                import numpy as np
                if not bool(np.all(V.ev(pre))):
                    continue
            except X.Undecided:
                pass
        n += 1
        try:
            vb = V.ev(b)
        except X.Undecided as e:
            return ("undecided", "specification cannot be evaluated: %s" % e)
        try:
            va = V.ev(a)
        except X.Undecided as e:
            und += 1
            why = str(e)
            continue
        if not X.same(va, vb, rtol):
            r = despite(a, b, BASE + s, spec, rtol)
            if r is None:
                return ("diff", witness(V, a, b, va, vb))
            und += 1
            why = r
    if und:
        return ("undecided", why)
    if n == 0:
        return ("undecided", "no draw satisfies the precondition")
    if far:
        r = beyond(a, b, spec, pre, rtol)
        if r:
            return ("diff", r)
    return "same"


def despite(a, b, seed, spec, rtol):
    """None when a and b differ whatever the conditions the analysis could not follow are; else the reason why this is not decided"""
    names = sorted(l.args[0] for l in X.leaves(a) if l.op == "bvar" and l.args[0].startswith("unk:"))
    if not names:
        return None
    if len(names) > 6:
        return names[0]
    spec = spec or {}
    for bits in range(1 << len(names)):
        force = dict(spec.get("force", {}), **{n: bool(bits >> i & 1) for i, n in enumerate(names)})
        V = X.Val(seed, dict(spec, force=force))
        try:
            if X.same(V.ev(a), V.ev(b), rtol):
                return names[0]
        except X.Undecided as e:
            return str(e)
    return None


def witness(V, a, b, va, vb):
    conds = []
    for l in sorted(X.leaves(a) | X.leaves(b), key=lambda z: z.id):
        if l.op in ("has", "eqs", "bvar"):
            try:
                conds.append("%s=%s" % (X.show(l), bool(V.cond(l))))
            except Exception:
                pass
    import numpy as np

    def f(v):
        v = np.asarray(v)
        return np.array2string(v.ravel()[:4], precision=5) + ("…" if v.size > 4 else "")
    return "computed %s where %s is required%s" % (f(va), f(vb), (" (case: " + ", ".join(conds[:6]) + ")") if conds else "")


class Twin:
    """hints of the inputs of an earlier run"""
    TAG = "earlier:"

    def __init__(self, base, names, shared=()):
        self.base, self.names, self.shared, self.common = base, names, shared, {}

    def one(self, p):
        def f(I):
            if p not in self.common:
                self.common[p] = I.materialise(p, self.base(p) or {})
            return self.common[p]
        return f

    def __call__(self, p):
        q = p[len(self.TAG):] if p.startswith(self.TAG) else p
        if q in self.shared:
            return {"value": self.one(q)}
        if not p.startswith(self.TAG):
            return self.base(p)
        h = self.base(p[len(self.TAG):])
        if h and "num" in h:
            n = h["num"]
            h = dict(h, num=n.but(e=self.ren(n.e), unit=self.ren(n.unit)) if hasattr(n, "but") else n)
        return h

    def ren(self, e):
        if isinstance(e, X.E) and e.op == "var":
            return X.var(self.TAG + e.args[0], rows=e.rows, wl=e.wl, kind=e.args[1])
        if isinstance(e, X.E) and e.op == "uof":
            return X.uof(self.TAG + e.args[0])
        return e


def twice(f, names):
    def g(I, st):
        plain, seen, tag = I.region, {}, [Twin.TAG]

        def region(p):
            p = tag[0] + p if p in names else p
            if p not in seen:
                seen[p] = plain(p)
            return seen[p]
        I.region = region
        f(I, st)
        tag[0] = ""
        return f(I, st)
    return g


def some(c):
    """the condition where every selection along the spectral axis is taken to hold a pixel (the extreme of none is an error anyway)"""
    if c.op == "red" and c.args[0] == "any" and c.args[1].wl:
        return X.TRUE
    if c.op in ("and", "or", "not"):
        a = [some(x) for x in c.args]
        return X.NOT(*a) if c.op == "not" else (X.AND if c.op == "and" else X.OR)(*a)
    if c.op == "ite":
        return X.ite(*[some(x) for x in c.args])
    return c


class Ctx:
    """one property check in progress"""

    def __init__(self, repo, prop, tier="quick"):
        self.repo, self.tier = repo, tier
        self.res = Result(prop)
        self.seeds = NSEED[tier]
        self.shared = ()
        self.history = ()    # inputs that differ in an earlier run of the same code on the same other objects

    def after(self, names, text, shared=()):
        """the laws checked from here on are those of a second run, after one with other values of these inputs"""
        self.history, self.res.prefix, self.shared = names, text, shared
        return self

    # ---------------------------------------------------------- running
    def interp(self, hint, stub=None, repo=None):
        I = Interp(repo or self.repo, hint)
        I.res = self.res
        I.stubs = stubs.default()
        if stub:
            I.stubs.update(stub)
        return I

    def run(self, name, where, hint, f, stub=None, prep=None, total={}, repo=None):
        """f(I, st) -> value; None when undecided or diverging (recorded).
        total: draws (a spec) for which the code must complete"""
        if self.history:
            hint, f = Twin(hint, self.history, self.shared), twice(f, self.history)
        I = self.interp(hint, stub, repo)
        st = I.start()
        if prep:
            prep(I, st)
        try:
            v = f(I, st)
        except Diverge:
            self.res.analysed |= I.analysed
            if I.unks:
                self.res.und(name, where, "not analysable: " + I.unks[0])
            else:
                self.res.bad(name, where, "never completes: %s" % ("; ".join(map(raise_text, I.raises[-2:])) or "no normal exit"))
            return None
        except Broken:
            raise
        except Missing as e:
            self.res.und(name, where, "no such helper: %s" % e)
            return None
        except RecursionError:
            self.res.und(name, where, "recursion limit")
            return None
        except Exception:
            self.res.und(name, where, "engine: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:])
            return None
        self.res.analysed |= I.analysed
        if total is not None:
            self.total(I, st, name, where, total)
        return I, st, v

    def refuses(self, name, where, hint, f, why, stub=None, repo=None):
        """f(I, st) must always fail"""
        I = self.interp(hint, stub, repo)
        try:
            st = I.start()
            f(I, st)
            # libraries do not fail by themselves
            done = not any(v and c in I.excs for c, v in st.guard)
        except Diverge:
            done = False
        except (Broken, Missing):
            raise
        except Exception:
            self.res.und(name, where, "engine: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:])
            return
        self.res.analysed |= I.analysed
        if I.unks:
            self.res.und(name, where, "not analysable: " + I.unks[0])
        elif done:
            self.res.bad(name, where, why)
        else:
            self.res.check(bool(I.raises), name, where, "raises %s" % sorted({str(r[0]) for r in I.raises}))

    def total(self, I, st, name, where, spec):
        g = X.TRUE
        for c, v in st.guard:
            if c in I.excs and not v:
                continue    # where a library fails by itself, so may the caller
            c = some(c)
            g = X.AND(g, c if v else X.NOT(c))
        if callable(spec):
            spec = spec(g)
        try:
            r = equal(g, X.TRUE, self.seeds, spec)
        except Exception:
            r = ("undecided", "engine: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:])
        name += " completes"
        if r == "same":
            self.res.ok(name, where)
        elif r[0] == "diff":
            why = "; ".join("%s at %s" % (x[0], x[2]) for x in I.raises[-4:]) or "; ".join("%s may be undefined at %s" % (x[1], x[2]) for x in I.effects if x[0] in ("undef", "maybe-undef"))
            self.res.bad(name, where, "fails (%s): %s" % (why, r[1]))
        else:
            self.res.und(name, where, r[1])

    # ---------------------------------------------------------- obligations
    def eq(self, name, where, got, want, spec=None, pre=None):
        """got: Num/E/None"""
        if got is None:
            self.res.und(name, where, "no numeric value found")
            return
        e = got.e if isinstance(got, Num) else got
        try:
            r = equal(e, want, self.seeds, spec, pre, far=True)
        except Broken:
            raise
        except Exception:
            self.res.und(name, where, "engine: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:])
            return
        if r == "same":
            self.res.ok(name, where)
        elif r[0] == "diff":
            self.res.bad(name, where, r[1])
        else:
            self.res.und(name, where, r[1])

    def eq_any(self, name, where, got, wants, spec=None, pre=None):
        """equal to one of several graphs (conventions the statement leaves open)"""
        if got is None:
            self.res.und(name, where, "no numeric value found")
            return
        e = got.e if isinstance(got, Num) else got
        rs = []
        try:
            for w in wants:
                r = equal(e, w, self.seeds, spec, pre, far=True)
                if r == "same":
                    self.res.ok(name, where)
                    return
                rs.append(r)
        except Broken:
            raise
        except Exception:
            self.res.und(name, where, "engine: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")[-300:])
            return
        und = [r for r in rs if r[0] != "diff"]
        if und:
            self.res.und(name, where, und[0][1])
        else:
            self.res.bad(name, where, rs[0][1])

    def col(self, I, st, tab, name):
        v = I.rd(st, (tab.oid, "item", name), None)
        if v is None:
            return None
        return I.num(v, st)

    def cols(self, I, st, tab):
        return dict(I.rd(st, (tab.oid, "keys"), ()))

    def eqcol(self, I, st, tab, col, want, where, cond=X.TRUE, spec=None, pre=None, label=""):
        ks = self.cols(I, st, tab)
        nm = "column " + col + (" " + label if label else "")
        if any(not isinstance(k, str) for k in ks):
            self.res.und(nm, where, "columns not all known")
            return
        if col not in ks:
            self.res.bad(nm, where, "the column is not produced")
            return
        if ks[col] is not cond:
            self.eq(nm + " present", where, ks[col], cond, spec)
        v = self.col(I, st, tab, col)
        self.eq(nm, where, v, want, spec, pre)


def raise_text(r):
    try:
        return " ".join(str(x) for x in r[:2])
    except Exception:
        return str(r)
