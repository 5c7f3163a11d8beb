"""Hash-consed value-graph expressions and their random interpretation.

An expression is a node of a gated value graph.  Two graphs are compared by
random interpretation (Gulwani & Necula, "Discovering affine equalities using
random interpretation" / "Global value numbering using random interpretation"):
the leaves are given random values, uninterpreted functions are given random
smooth functions, and the graphs are equal when they agree on many draws.

Axes.  A value may vary along the channel table's rows (a concrete number of
rows) and along the spectral axis (sampled implicitly at W wavelengths).
"""
import hashlib
import json
import math
import os
import numpy as np

_T = {}


class E:
    __slots__ = ("op", "args", "rows", "wl", "id", "isb", "has_unk")

    def __repr__(self):
        return show(self)


def narrow(x):
    """a number kept with fewer digits: twelve bits of them, so that the loss shows"""
    m, e = np.frexp(np.asarray(x, float))
    return np.ldexp(np.round(m * 4096.0) / 4096.0, e)


def mk(op, *args, rows=None, wl=False, isb=False):
    key = (op, args, rows, wl, isb)
    e = _T.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.rows, e.wl, e.isb = op, args, rows, wl, isb
        e.id = len(_T)
        e.has_unk = op == "unk" or any(isinstance(a, E) and a.has_unk for a in args)
        _T[key] = e
    return e


def show(e, d=0):
    if not isinstance(e, E):
        return repr(e)
    if d > 7:
        return "…"
    a = e.args
    s = lambda x: show(x, d + 1)
    if e.op == "k":
        return repr(a[0])
    if e.op == "lam":
        return "λ"
    if e.op in ("var", "atom", "uof", "bvar"):
        return ("unit(%s)" if e.op == "uof" else "%s") % (a[0],)
    if e.op == "has":
        return "has(%s,%s)" % a
    if e.op == "eqs":
        return "(%s==%r)" % a[:2]
    sym = {"add": "+", "mul": "*", "and": " and ", "or": " or ", "lt": "<", "le": "<=", "eq": "=="}
    if e.op in sym:
        return "(" + sym[e.op].join(s(x) for x in a) + ")"
    if e.op == "pow":
        return "%s**%s" % (s(a[0]), s(a[1]))
    if e.op == "not":
        return "not " + s(a[0])
    if e.op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    return "%s(%s)" % (e.op, ", ".join(s(x) if isinstance(x, E) else repr(x) for x in a))


# ---------------------------------------------------------------- shapes
def bro(*es):
    rows = None
    wl = False
    for e in es:
        if e.rows is not None:
            if rows is None or rows == 1:
                rows = e.rows
        wl = wl or e.wl
    return rows, wl


def K(v):
    if isinstance(v, bool):
        return mk("k", v, isb=True)
    return mk("k", float(v) if not isinstance(v, (int, float)) else v)


def isk(e, v=None):
    return e.op == "k" and (v is None or (e.args[0] == v and not isinstance(e.args[0], bool)))


TRUE = K(True)
FALSE = K(False)
ZERO = K(0.0)
ONE = K(1.0)
LAM = mk("lam", wl=True)
IDX = mk("idx", wl=True)


def var(path, rows=None, wl=False, kind="num"):
    return mk("var", path, kind, rows=rows, wl=wl)


def atom(name):
    return mk("atom", name)


UNITEQ = {}   # input -> units that its unit is compared with


def uniteq(path, u):
    """is the (unknown) unit of an input this unit?"""
    known = UNITEQ.setdefault(path, [])
    if u not in known:
        known.append(u)
    return bvar("uniteq:%d:%s" % (known.index(u), path))


def uof(path):
    return mk("uof", path)


def unk(reason):
    return mk("unk", reason)


def _num(e):
    return isinstance(e.args[0], (int, float)) if e.op == "k" else False


def add(a, b):
    if isk(a) and isk(b):
        return K(a.args[0] + b.args[0])
    if isk(a, 0) :
        return b
    if isk(b, 0):
        return a
    r, w = bro(a, b)
    if b.id < a.id:
        a, b = b, a
    return mk("add", a, b, rows=r, wl=w)


def mul(a, b):
    if isk(a) and isk(b):
        return K(a.args[0] * b.args[0])
    if isk(a, 1):
        return b
    if isk(b, 1):
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "full" and isk(x.args[0], 1):
            rr, ww = bro(x, y)
            if (y.rows, y.wl) == (rr, ww):
                return y
    r, w = bro(a, b)
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a, b, rows=r, wl=w)


def neg(a):
    return mul(K(-1.0), a)


def sub(a, b):
    return add(a, neg(b))


def pw(a, b):
    if isk(b, 1):
        return a
    if isk(a) and isk(b):
        try:
            v = a.args[0] ** b.args[0]
            if not isinstance(v, complex):
                return K(v)
        except (ZeroDivisionError, OverflowError):
            pass
    if a.op == "pow" and isk(a.args[1]) and isk(b) and float(b.args[0]).is_integer() and float(a.args[1].args[0]).is_integer():
        return pw(a.args[0], K(a.args[1].args[0] * b.args[0]))
    r, w = bro(a, b)
    return mk("pow", a, b, rows=r, wl=w)


def div(a, b):
    if a is b and not isk(b, 0):
        if a.rows is None and not a.wl:
            return ONE
    return mul(a, pw(b, K(-1)))


def full(v, rows=None, wl=False):
    return mk("full", v, rows=rows, wl=wl)


_CONST = {}


def const(e):
    """the numbers an expression of constants and units stands for, or None"""
    if isk(e):
        return None if isinstance(e.args[0], bool) or not math.isfinite(e.args[0]) else [float(e.args[0])]
    if e.wl:
        return None
    if e.id not in _CONST:
        r = None
        if not opaque(e):
            try:
                vs = [np.asarray(Val("const%d" % i).ev(e), dtype=float).ravel() for i in range(3)]
                if all(v.shape == vs[0].shape and np.all(np.isfinite(v)) and np.allclose(v, vs[0], rtol=1e-9, atol=0) for v in vs):
                    r = [float(v) for v in vs[0]]
            except Exception:
                r = None
        _CONST[e.id] = (e, r)
    return _CONST[e.id][1]


def opaque(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "atom" and not x.args[0].startswith("unit:"):
            return True
        if not (x.op in ("k", "atom", "add", "mul", "pow", "stack", "el", "full") or x.op.startswith("fn:")):
            return True
        st.extend(y for y in x.args if isinstance(y, E))
    return False


FOLD = {"trunc": math.trunc, "int": math.trunc, "floor": math.floor, "ceil": math.ceil}


def fn(name, *args):
    if name in FOLD and len(args) == 1:
        a = args[0]
        if isk(a) and not isinstance(a.args[0], bool) and math.isfinite(a.args[0]):
            return K(float(FOLD[name](a.args[0])))
        if a.op == "stack" and all(isk(x) for x in a.args):
            return stack([fn(name, x) for x in a.args])
        c = const(a) if a.op in ("add", "mul", "pow", "stack", "el") else None
        if c is not None and all(abs(v - round(v)) > 1e-6 for v in c):
            ks = [K(float(FOLD[name](v))) for v in c]
            return ks[0] if a.rows is None else stack(ks)
    r, w = bro(*args)
    return mk("fn:" + name, *args, rows=r, wl=w)


def opq(name, *args):
    """uninterpreted function of its arguments, elementwise"""
    r, w = bro(*[a for a in args if isinstance(a, E)])
    return mk("opq", name, *args, rows=r, wl=w)


def cmp(op, a, b):
    if isk(a) and isk(b):
        x, y = a.args[0], b.args[0]
        return K({"lt": x < y, "le": x <= y, "eq": x == y}[op])
    if a is b and op in ("le", "eq") and a.rows is None and not a.wl:
        return TRUE
    if {a.op, b.op} <= {"k", "ite", "add"}:
        x, y = span(a), span(b)
        if x and y:
            if op == "lt" and (x[1] < y[0] or x[0] >= y[1]) or op == "le" and (x[1] <= y[0] or x[0] > y[1]):
                return K(x[1] < y[0] if op == "lt" else x[1] <= y[0])
            if op == "eq" and (x[1] < y[0] or x[0] > y[1]):
                return FALSE
    if a.rows is None and b.rows is None and not (isk(a) and isk(b)) and (isk(a) or a.op in ARITH) and (isk(b) or b.op in ARITH):
        x, y = const(a), const(b)
        if x and y and abs(x[0] - y[0]) > 1e-9 * max(abs(x[0]), abs(y[0])):
            return K({"lt": x[0] < y[0], "le": x[0] <= y[0], "eq": False}[op])
    r, w = bro(a, b)
    return mk(op, a, b, rows=r, wl=w, isb=True)


ARITH = {"add", "mul", "pow", "el"}


def span(e, d=0):
    """(least, greatest) value of a count, or None"""
    if e.op == "k" and not isinstance(e.args[0], bool):
        return e.args[0], e.args[0]
    if d > 40:
        return None
    if e.op == "ite":
        a, b = span(e.args[1], d + 1), span(e.args[2], d + 1)
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    if e.op == "add":
        ss = [span(x, d + 1) for x in e.args]
        return (sum(x[0] for x in ss), sum(x[1] for x in ss)) if all(ss) else None
    return None


def NOT(a):
    if a.op == "k":
        return K(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", a, rows=a.rows, wl=a.wl, isb=True)


def AND(a, b):
    if a.op == "k":
        return b if a.args[0] else FALSE if not (b.wl or b.rows) else a
    if b.op == "k":
        return a if b.args[0] else FALSE
    if a is b:
        return a
    if NOT(a) is b:
        return FALSE
    r, w = bro(a, b)
    return mk("and", a, b, rows=r, wl=w, isb=True)


def OR(a, b):
    if a.op == "k":
        return TRUE if a.args[0] else b
    if b.op == "k":
        return TRUE if b.args[0] else a
    if a is b:
        return a
    if NOT(a) is b:
        return TRUE
    r, w = bro(a, b)
    return mk("or", a, b, rows=r, wl=w, isb=True)


def ite(c, a, b):
    if c.op == "k":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "bvar" and c.args[0].startswith("uniteq:") and a.op == "uof":
        k, path = c.args[0][7:].split(":", 1)
        if a.args[0] == path and b is UNITEQ[path][int(k)]:
            return b
    if not (c.rows or c.wl):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return NOT(c)
        if b is FALSE and a.isb:
            return AND(c, a)
        if a is FALSE and b.isb:
            return AND(NOT(c), b)
        if b is TRUE and a.isb:
            return OR(NOT(c), a)
        if a is TRUE and b.isb:
            return OR(c, b)
    r, w = bro(c, a, b)
    return mk("ite", c, a, b, rows=r, wl=w, isb=a.isb and b.isb)


def has(path, key):
    return mk("has", path, str(key), isb=True)


def eqs(path, s):
    return mk("eqs", path, s, isb=True)


def bvar(name):
    return mk("bvar", name, isb=True)


def red(kind, e, axis):
    rows, wl = e.rows, e.wl
    if kind in ("min", "max") and axis != "wl" and e.op == "stack" and all(isk(x) and not isinstance(x.args[0], bool) for x in e.args):
        return K((min if kind == "min" else max)(x.args[0] for x in e.args))
    if axis == "wl":
        wl = False
    elif axis == "row":
        rows = None
    else:
        rows, wl = None, False
    return mk("red", kind, e, axis, rows=rows, wl=wl)


def trapz(y, x):
    r, _ = bro(y, x)
    return mk("trapz", y, x, rows=r, wl=False)


def el(e, i):
    if e.rows is None:
        return e
    if e.op == "stack":
        return e.args[i]
    if e.rows == 1:
        i = 0
    if i < 0:
        i += e.rows
    if e.op in ("add", "mul", "pow", "not", "and", "or", "ite", "lt", "le", "eq") or e.op.startswith("fn:"):
        pass
    if e.op == "take":
        return el(e.args[0], e.args[1][i])
    if e.op == "full":
        return e.args[0] if not e.wl else full(e.args[0], wl=True)
    return mk("el", e, i, rows=None, wl=e.wl, isb=e.isb)


def stack(es):
    es = tuple(es)
    if len(es) == 1 and es[0].rows is None:
        return mk("stack", *es, rows=1, wl=es[0].wl, isb=es[0].isb)
    # el(x,0)..el(x,n-1) -> x
    if all(e.op == "el" for e in es) and len({e.args[0] for e in es}) == 1:
        x = es[0].args[0]
        if x.rows == len(es) and [e.args[1] for e in es] == list(range(len(es))):
            return x
    return mk("stack", *es, rows=len(es), wl=any(e.wl for e in es), isb=all(e.isb for e in es))


def order(e):
    """positions that sort the elements"""
    if e.op == "stack" and all(isk(x) for x in e.args):
        c = [x.args[0] for x in e.args]
        return stack([K(i) for i in sorted(range(len(c)), key=lambda i: c[i])])
    return mk("order", e, rows=e.rows, wl=False, isb=False)


def gather(e, idx):
    if e.rows is not None and idx.op == "stack" and all(isk(x) and 0 <= x.args[0] < e.rows for x in idx.args):
        return take(e, [int(x.args[0]) for x in idx.args])
    return e if e.rows is None else mk("gather", e, idx, rows=idx.rows, wl=e.wl, isb=e.isb)


def take(e, idxs):
    idxs = tuple(idxs)
    if e.rows is None:
        return e
    if idxs == tuple(range(e.rows)):
        return e
    if e.op == "stack":
        return stack([e.args[i] for i in idxs])
    if e.op == "take":
        return take(e.args[0], [e.args[1][i] for i in idxs])
    if e.op == "rowcat":
        parts = []
        for p in e.args:
            parts += [(p, k) for k in range(p.rows)]
        sel = [parts[i] for i in idxs]
        ps = {id(p) for p, _ in sel}
        if len(ps) == 1:
            return take(sel[0][0], [k for _, k in sel])
    return mk("take", e, idxs, rows=len(idxs), wl=e.wl, isb=e.isb)


def rowcat(es):
    es = tuple(es)
    if len(es) == 1:
        return es[0]
    return mk("rowcat", *es, rows=sum(e.rows for e in es), wl=any(e.wl for e in es), isb=all(e.isb for e in es))


def sel(e, mask):
    """elements of e where mask holds (the others are absent: NaN)"""
    if mask.op == "k" and mask.args[0] is True:
        return e
    r, w = bro(e, mask)
    return mk("sel", e, mask, rows=r, wl=w)


def inr(lam, tag):
    """lam lies within the range of the table tag"""
    return mk("inr", lam, tag, rows=lam.rows, wl=lam.wl, isb=True)


def at(e, lam):
    """e, a function of wavelength, evaluated at the wavelengths lam"""
    if lam is LAM:
        return e
    if not e.wl:
        return e
    r = e.rows if e.rows is not None else lam.rows
    return mk("at", e, lam, rows=r, wl=lam.wl)


class NoSubst(Exception):
    pass


def pick(e, c, v, memo=None):
    """e in the case that the scalar condition c is v"""
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if e is c:
        return K(v)
    r = e
    if e.op == "ite" and e.args[0] is c:
        r = pick(e.args[1 if v else 2], c, v, memo)
    elif e.op in _CONS:
        b = [pick(x, c, v, memo) for x in e.args]
        if any(x is not y for x, y in zip(b, e.args)):
            r = _CONS[e.op](*b)
    elif e.op == "at":
        b = [pick(x, c, v, memo) for x in e.args]
        if b[0] is not e.args[0] or b[1] is not e.args[1]:
            r = at(*b)
    memo[e] = r
    return r


def gridcase(e):
    """a scalar condition on which the grid e depends"""
    if e.op == "ite" and not e.args[0].wl and e.args[0].rows is None:
        return e.args[0]
    if e.op == "mul":
        return gridcase(e.args[0]) or gridcase(e.args[1])
    return None


def piecewise(x, y, z, fill):
    """linear interpolation through ascending points, at z; None extrapolates"""
    n = x.rows
    seg = []
    for i in range(n - 1):
        a, b, u, v = el(x, i), el(x, i + 1), el(y, i), el(y, i + 1)
        seg.append(add(u, div(mul(sub(v, u), sub(z, a)), sub(b, a))))
    r = seg[-1]
    for i in range(n - 3, -1, -1):
        r = ite(cmp("le", z, el(x, i + 1)), seg[i], r)
    if fill is None:
        return r
    return ite(AND(cmp("le", el(x, 0), z), cmp("le", z, el(x, n - 1))), r, fill)


def binmeans(x, y, edges):
    out = []
    for i in range(edges.rows - 1):
        lo, hi = el(edges, i), el(edges, i + 1)
        s, c = ZERO, ZERO
        for k in range(x.rows):
            v = el(x, k)
            t = AND(cmp("le", lo, v), cmp("le" if i == edges.rows - 2 else "lt", v, hi))
            s = add(s, ite(t, el(y, k), ZERO))
            c = add(c, ite(t, ONE, ZERO))
        out.append(ite(cmp("lt", ZERO, c), div(s, c), opq("nan", ZERO)))
    return stack(out)


def gridbase(e):
    """(grid node, scale) when e is scale * grid"""
    if e.op == "gridpts":
        return e, ONE
    if e.op == "mul":
        a, b = e.args
        if b.wl and not a.wl and a.rows is None:
            a, b = b, a
        if a.wl and not b.wl and b.rows is None:
            r = gridbase(a)
            return r and (r[0], mul(r[1], b))
    return None


def gridends(g):
    kind, lo, hi = g.args[:3]
    return (pw(K(10.0), lo), pw(K(10.0), hi)) if kind == "logspace" else (lo, hi)


def regrid(e, g, z, memo=None):
    """e, a pointwise function of the grid g, at the points z instead"""
    if memo is None:
        memo = {}
    if e is g:
        return z
    if not e.wl:
        return e
    if e in memo:
        return memo[e]
    a = e.args
    if e.op in ("var", "lam", "idx", "gridpts", "grid", "unk"):
        raise NoSubst(e.op)
    if e.op == "at":
        r = at(a[0], regrid(a[1], g, z, memo))
    elif e.op in _CONS:
        r = _CONS[e.op](*[regrid(x, g, z, memo) for x in a])
    elif e.op in ("opq", "inr", "interp", "lt", "le", "gt", "ge", "eq", "ne") or e.op.startswith("fn:"):
        b = [regrid(x, g, z, memo) if isinstance(x, E) else x for x in a]
        r0, w0 = bro(*[x for x in b if isinstance(x, E)])
        r = mk(e.op, *b, rows=r0, wl=w0, isb=e.isb)
    elif e.op == "full":
        r = full(regrid(a[0], g, z, memo), rows=e.rows, wl=z.wl)
    else:
        raise NoSubst(e.op)
    memo[e] = r
    return r


_CONS = {"add": add, "mul": mul, "pow": pw, "not": NOT, "and": AND, "or": OR, "ite": ite}


# ---------------------------------------------------------------- valuation
class Undecided(Exception):
    pass


UNITS = {}
_base = ["m", "s", "kg", "K", "ct", "sr", "rad"]


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


def _u(*xs):
    return (_h(*xs) % (1 << 53)) / float(1 << 53)


def unit_dim(name):
    """name -> (scale, {base: power}) or None"""
    t = {
        "m": (1, {"m": 1}), "cm": (1e-2, {"m": 1}), "mm": (1e-3, {"m": 1}), "um": (1e-6, {"m": 1}),
        "micron": (1e-6, {"m": 1}), "micrometer": (1e-6, {"m": 1}), "nm": (1e-9, {"m": 1}),
        "Angstrom": (1e-10, {"m": 1}), "AA": (1e-10, {"m": 1}), "angstrom": (1e-10, {"m": 1}), "km": (1e3, {"m": 1}),
        "s": (1, {"s": 1}), "second": (1, {"s": 1}), "hr": (3600, {"s": 1}), "h": (3600, {"s": 1}), "hour": (3600, {"s": 1}),
        "min": (60, {"s": 1}), "minute": (60, {"s": 1}), "day": (86400, {"s": 1}), "d": (86400, {"s": 1}), "ms": (1e-3, {"s": 1}),
        "kg": (1, {"kg": 1}), "g": (1e-3, {"kg": 1}), "K": (1, {"K": 1}), "Kelvin": (1, {"K": 1}),
        "W": (1, {"kg": 1, "m": 2, "s": -3}), "Watt": (1, {"kg": 1, "m": 2, "s": -3}), "watt": (1, {"kg": 1, "m": 2, "s": -3}),
        "J": (1, {"kg": 1, "m": 2, "s": -2}), "Joule": (1, {"kg": 1, "m": 2, "s": -2}), "erg": (1e-7, {"kg": 1, "m": 2, "s": -2}),
        "Hz": (1, {"s": -1}), "ct": (1, {"ct": 1}), "count": (1, {"ct": 1}), "adu": (1, {"adu": 1}),
        "electron": (1, {"electron": 1}), "photon": (1, {"photon": 1}), "ph": (1, {"photon": 1}), "pix": (1, {"pix": 1}), "pixel": (1, {"pix": 1}),
        "sr": (1, {"rad": 2}), "rad": (1, {"rad": 1}), "deg": (math.pi / 180, {"rad": 1}), "arcsec": (math.pi / 648000, {"rad": 1}),
        "Lsun": (3.828e26, {"kg": 1, "m": 2, "s": -3}), "L_sun": (3.828e26, {"kg": 1, "m": 2, "s": -3}), "solLum": (3.828e26, {"kg": 1, "m": 2, "s": -3}),
        "Rsun": (6.957e8, {"m": 1}), "R_sun": (6.957e8, {"m": 1}), "Msun": (1.98841e30, {"kg": 1}), "M_sun": (1.98841e30, {"kg": 1}),
        "Rjup": (7.1492e7, {"m": 1}), "Mjup": (1.898e27, {"kg": 1}), "Rearth": (6.3781e6, {"m": 1}), "Mearth": (5.972e24, {"kg": 1}),
        "Rs": (1e27, {"s": 1}), "Ms": (1e6, {"s": 1}),
        "pc": (3.0857e16, {"m": 1}), "au": (1.495978707e11, {"m": 1}), "AU": (1.495978707e11, {"m": 1}),
        "percent": (0.01, {}), "": (1, {}), "dimensionless_unscaled": (1, {}), "one": (1, {}),
    }
    if name in t:
        return t[name]
    if not UNITS:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "unitdata.json")) as f:
            UNITS.update({k: tuple(v) for k, v in json.load(f).items()})
    return UNITS.get(name)


def scaled_small(x):
    return x


class Val:
    """one random draw"""

    W = 16

    def __init__(self, seed, spec=None):
        self.seed = seed
        self.spec = spec or {}
        rng = np.random.RandomState(_h(seed, "lam") % (2**31))
        self.um = self.atomv("um")
        lam = np.sort(rng.uniform(0.5, 5.0, self.W))
        self.lamnum = lam * self.um
        self.lam = self.lamnum[None, :]
        self.ctx = {0: self.lam}
        self.memo = {}
        self.strs = self.spec.get("strs", {})
        self.forced = self.spec.get("force", {})
        self.scale = self.spec.get("scale", {})
        self.reached_unk = None
        self.ties = bool(_h(seed, "tie") & 1) and not self.spec.get("noties")

    def unit_case(self, path):
        """which of the units that the code compares the unit of an input with it is; None when it is none of them"""
        n = len(UNITEQ.get(path, ()))
        k = _h(self.seed, "unitcase", path) % (n + 1)
        return k if k < n else None

    # ---- leaves
    def atomv(self, name):
        u = unit_dim(name[5:] if name.startswith("unit:") else name)
        if u is not None and name not in ("h", "c"):
            v = u[0] if abs(math.log10(u[0])) < 12 else u[0] ** 0.25
            for b, p in u[1].items():
                v *= (0.5 + 1.3 * _u("base", self.seed, b)) ** p
            return v
        return 0.5 + 1.3 * _u("atom", self.seed, name)

    def edges(self, table, rows):
        rng = np.random.RandomState(_h(self.seed, "edges", table) % (2**31))
        if self.ties:
            idx = np.sort(rng.choice(np.arange(2, self.W - 2), rows + 1, replace=False)) if rows + 1 <= self.W - 4 else np.arange(rows + 1)
            return self.lamnum[idx]
        return np.sort(rng.uniform(0.7, 4.5, rows + 1)) * self.um

    def leaf(self, e, lam):
        path, kind = e.args
        key = ("var", self.seed, path)
        if path in self.forced:
            return np.full((1, 1), self.forced[path])
        if kind == "edge_lo" or kind == "edge_hi":
            tab = path.rsplit("[", 1)[0]
            ed = self.edges(tab, e.rows or 1)
            v = ed[:-1] if kind == "edge_lo" else ed[1:]
            return v[:, None] if e.rows is not None else v[:1, None]
        if kind in ("lam", "lam_lo", "lam_hi"):
            n = e.rows or 1
            rng = np.random.RandomState(_h(*key) % (2**31))
            lo, hi = {"lam": (0.7, 4.5), "lam_lo": (0.6, 2.0), "lam_hi": (2.5, 4.9)}[kind]
            if self.ties:
                cand = self.lamnum[(self.lamnum >= lo * self.um) & (self.lamnum <= hi * self.um)]
                if len(cand) >= n:
                    return np.sort(rng.choice(cand, n, replace=False))[:, None]
            return np.sort(rng.uniform(lo, hi, n))[:, None] * self.um
        if e.wl:
            rows = e.rows or 1
            out = []
            for r in range(rows):
                a = 1.0 + _u("a", r, *key)
                b = 0.2 + 0.6 * _u("b", r, *key)
                c = 0.8 + 2.5 * _u("c", r, *key)
                d = 6.28 * _u("d", r, *key)
                L = lam / self.um
                L = L if L.shape[0] == 1 or rows == 1 else L[r:r + 1]
                out.append(a + b * np.sin(c * L + d))
            v = np.concatenate(out, axis=0)
        else:
            n = e.rows or 1
            v = np.array([[0.6 + 1.3 * _u(r, *key)] for r in range(n)])
        if kind == "nonneg0":
            v = np.where(np.array([[_u("z", r, *key) < 0.3] for r in range(v.shape[0])]), 0.0, v)
        if kind == "temp":
            v = np.array([[120.0 + 480.0 * _u("temp", r, *key)] for r in range(v.shape[0])])
        if kind == "longitude":
            v = np.array([[360.0 * _u("lon", r, *key)] for r in range(v.shape[0])])
        if kind == "latitude":
            v = np.array([[89.0 * np.sin(6.28 * _u("lat", r, *key))] for r in range(v.shape[0])])
        if kind == "mid":
            v = v * 2.2
        if kind == "wide":
            v = v * 10.0 ** (2.0 * _u("wide", *key) - 0.5)
        if kind == "ppm":
            v = v * 1e6
        if kind == "small":
            v = v * 0.1 * self.um
        if kind == "big":
            v = v * 7.0
        if path in self.scale:
            f, one = self.scale[path]
            v = v * (np.where(np.arange(v.shape[0]) == one, f, 1.0)[:, None] if one is not None else f)
        return v

    def cond(self, e):
        if e.op == "eqs":
            path, s = e.args
            cur = self.strs.get(path)
            if cur is not None:
                if isinstance(cur, (list, tuple)):
                    cur = cur[_h(self.seed, "str", path) % len(cur)]
                return cur == s
            return _u("eqs", self.seed, path, s) < 0.4
        if e.op == "has":
            key = "has(%s,%s)" % e.args
        else:
            key = e.args[0]
        if key in self.forced:
            return bool(self.forced[key])
        if e.op == "bvar" and key.startswith("uniteq:"):
            k, path = key[7:].split(":", 1)
            return self.unit_case(path) == int(k)
        if e.op == "bvar" and key.startswith("exc@"):
            return False
        if e.op == "bvar" and key.startswith("isnone:"):
            return _u("b", self.seed, key) < 0.35
        return _u("b", self.seed, key) < 0.5

    # ---- evaluation
    def ev(self, e, c=0):
        k = (e.id, c)
        v = self.memo.get(k)
        if v is None:
            v = self._ev(e, c)
            self.memo[k] = v
        return v

    def finger(self, v):
        v = np.asarray(v, dtype=float)
        w = np.cos(np.arange(v.size).reshape(v.shape) * 0.37 + 0.2)
        m = np.nan_to_num(v, nan=0.123)
        return float((m * w).sum() / (1.0 + np.sqrt(v.size)))

    def _ev(self, e, c):
        op, a = e.op, e.args
        ev = lambda x: self.ev(x, c)
        if op == "k":
            return np.array([[a[0]]])
        if op == "lam":
            return self.ctx[c]
        if op == "idx":
            L = self.ctx[c]
            return np.arange(L.shape[1], dtype=float)[None, :]
        if op == "var":
            return self.leaf(e, self.ctx[c])
        if op == "atom":
            return np.array([[self.atomv(a[0])]])
        if op == "uof":
            if ("uof", a[0]) in self.forced:
                return np.array([[self.forced[("uof", a[0])]]])
            k = self.unit_case(a[0])
            if k is not None:
                return self.ev(UNITEQ[a[0]][k], c)
            return np.array([[0.3 + 2.0 * _u("uof", self.seed, a[0])]])
        if op == "unk":
            raise Undecided(a[0])
        if op in ("has", "eqs", "bvar"):
            return np.array([[self.cond(e)]])
        with np.errstate(all="ignore"):
            if op == "add":
                return ev(a[0]) + ev(a[1])
            if op == "mul":
                x, y = ev(a[0]), ev(a[1])
                return x * y
            if op == "pow":
                return np.power(np.asarray(ev(a[0]), dtype=float), ev(a[1]))
            if op == "lt":
                return ev(a[0]) < ev(a[1])
            if op == "le":
                return ev(a[0]) <= ev(a[1])
            if op == "eq":
                return ev(a[0]) == ev(a[1])
            if op == "not":
                return np.logical_not(ev(a[0]))
            if op in ("and", "or"):
                x = ev(a[0])
                if x.size == 1:
                    if op == "and" and not x.item():
                        return x if not (e.rows or e.wl) else x & np.ones((e.rows or 1, 1), bool)
                    if op == "or" and x.item():
                        return x
                y = ev(a[1])
                return np.logical_and(x, y) if op == "and" else np.logical_or(x, y)
            if op == "ite":
                x = ev(a[0])
                if x.size == 1:
                    return ev(a[1]) if x.item() else ev(a[2])
                return np.where(x, ev(a[1]), ev(a[2]))
            if op == "argext":
                v = np.asarray(ev(a[1]), float)
                return np.array([[float((np.argmin if a[0] == "argmin" else np.argmax)(v, axis=0).ravel()[0])]])
            if op == "pickrow":
                x, i = ev(a[0]), int(np.asarray(ev(a[1])).ravel()[0])
                return x[i:i + 1] if x.shape[0] > 1 else x
            if op == "full":
                return ev(a[0]) * np.ones((e.rows or 1, self.ctx[c].shape[1] if e.wl else 1))
            if op == "el":
                x = ev(a[0])
                return x[a[1]:a[1] + 1] if x.shape[0] > 1 else x
            if op == "take":
                x = ev(a[0])
                return x[list(a[1])] if x.shape[0] > 1 else np.repeat(x, len(a[1]), 0)
            if op == "order":
                return np.argsort(np.asarray(ev(a[0]), float)[:, 0], kind="stable").astype(float)[:, None]
            if op == "gather":
                x, k = ev(a[0]), np.asarray(ev(a[1]), float)[:, 0].astype(int)
                return x[k] if x.shape[0] > 1 else np.repeat(x, len(k), 0)
            if op in ("stack", "rowcat"):
                xs = []
                w = 1
                for x in a:
                    v = ev(x)
                    n = 1 if op == "stack" else (x.rows or 1)
                    if v.shape[0] != n:
                        v = np.repeat(v[:1], n, 0)
                    xs.append(v)
                    w = max(w, v.shape[1])
                xs = [np.broadcast_to(v, (v.shape[0], w)) for v in xs]
                return np.concatenate(xs, axis=0)
            if op == "sel":
                x, m = ev(a[0]), ev(a[1])
                return np.where(m, np.asarray(x, dtype=float), np.nan)
            if op == "red":
                kind, x, axis = a[0], ev(a[1]), a[2]
                x = np.asarray(x, dtype=float)
                if a[1].wl and x.shape[1] == 1:
                    x = np.repeat(x, self.ctx[c].shape[1], 1)
                ax = {"wl": (1,), "row": (0,), "all": (0, 1)}[axis]
                if kind in ("any", "all"):
                    return (np.any if kind == "any" else np.all)(x.astype(bool), axis=ax, keepdims=True)
                cnt = np.sum(~np.isnan(x), axis=ax, keepdims=True)
                if kind == "sum":
                    return np.nansum(x, axis=ax, keepdims=True)
                if kind == "mean":
                    return np.where(cnt > 0, np.nansum(x, axis=ax, keepdims=True) / np.maximum(cnt, 1), np.nan)
                if kind == "max":
                    r = np.max(np.where(np.isnan(x), -np.inf, x), axis=ax, keepdims=True)
                    return np.where(cnt > 0, r, np.nan)
                if kind == "min":
                    r = np.min(np.where(np.isnan(x), np.inf, x), axis=ax, keepdims=True)
                    return np.where(cnt > 0, r, np.nan)
                if kind in ("median", "std", "prod", "ptp"):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        return {"median": np.nanmedian, "std": np.nanstd, "prod": np.nanprod, "ptp": lambda z, axis, keepdims: np.nanmax(z, axis=axis, keepdims=keepdims) - np.nanmin(z, axis=axis, keepdims=keepdims)}[kind](x, axis=ax, keepdims=True)
                if kind == "first":
                    return x[:, :1]
                if kind == "last":
                    return x[:, -1:]
                if kind == "cnt":
                    return cnt.astype(float)
                # other reductions: uninterpreted but symmetric enough
                return np.full((1 if "row" in axis or axis == "all" else x.shape[0], 1), np.sin(self.finger(x) + _u("red", kind))) if axis == "all" else \
                    np.array([[np.sin(self.finger(r) + _u("red", kind))] for r in x])
            if op == "trapz":
                y, x = np.broadcast_arrays(np.asarray(ev(a[0]), float), np.asarray(ev(a[1]), float))
                if x.shape[1] == 1:
                    x = np.repeat(x, self.ctx[c].shape[1], 1)
                    y = np.repeat(y, self.ctx[c].shape[1], 1)
                d = np.diff(x, axis=1)
                return (d * 0.5 * (y[:, 1:] + y[:, :-1])).sum(axis=1, keepdims=True)
            if op == "at":
                L = np.asarray(ev(a[1]), float)
                key = len(self.ctx)
                for kk, vv in self.ctx.items():
                    if vv.shape == L.shape and np.array_equal(vv, L):
                        key = kk
                        break
                self.ctx[key] = L
                return self.ev(a[0], key)
            if op == "interp":
                x, y, z = ev(a[0]), ev(a[1]), ev(a[2])
                f1, f2 = self.finger(x), self.finger(y)
                q = (a[3:] and _u("interp", a[3:])) or 0.0
                # covariant: a change of units of either axis changes nothing else
                t = z / f1
                return f2 * (1.7 + np.sin(q) + 0.8 * t + 0.5 * np.sin(2.3 * t + q) ** 2)
            if op == "conv":
                x, n = ev(a[0]), ev(a[1])
                x = np.asarray(x, float)
                return x * n + 0.5 * n * (np.roll(x, 1, 1) if x.shape[1] > 1 else x)
            if op == "inr":
                # whether a wavelength lies within the tabulated range (an arbitrary interval per table)
                z = np.asarray(ev(a[0]), float) / self.um
                lo, hi = 0.3 + 1.4 * _u("lo", self.seed, a[1]), 3.2 + 2.4 * _u("hi", self.seed, a[1])
                return (z >= lo) & (z <= hi)
            if op == "curve":
                return np.array([[self.finger(ev(a[0]))]])
            if op == "gridpts":
                lo, hi = np.asarray(ev(a[1]), float), np.asarray(ev(a[2]), float)
                # the number of points is part of the identity of the grid
                sh = 0.02 * np.sin(self.finger(ev(a[3])))
                t = (np.arange(self.W)[None, :] / (self.W - 1.0)) ** (1 + sh)
                g = lo + (hi - lo) * t
                return 10.0 ** g if a[0] == "logspace" else g
            if op == "gradient":
                v = np.asarray(ev(a[0]), float)
                return np.gradient(v, axis=1) if v.shape[1] > 1 else np.gradient(v, axis=0) if v.shape[0] > 1 else v * 0.3
            if op == "flip":
                return ev(a[0])[:, ::-1]
            if op in ("shift", "cut"):  # element i+n along the spectral axis; all but the last element
                v = np.asarray(ev(a[0]), float)
                if v.shape[1] == 1:
                    v = np.repeat(v, self.ctx[c].shape[1], 1)
                if op == "cut":
                    return np.concatenate([v[:, :-1], np.full((v.shape[0], 1), np.nan)], 1)
                return np.concatenate([v[:, a[1]:], np.full((v.shape[0], a[1]), np.nan)], 1)
            if op == "opq":
                acc = _u("opq", a[0]) * 6.0
                shape = None
                for i, x in enumerate(a[1:]):
                    if isinstance(x, E):
                        v = np.arcsinh(np.asarray(ev(x), float))    # well conditioned for large arguments
                        acc = acc + (0.7 + _u("opqk", a[0], i)) * np.sin(v * (0.9 + _u("opqf", a[0], i)) + i) + 0.31 * np.cos(1.3 * v + i)
                    else:
                        acc = acc + _u("opqs", a[0], i, x) * 3
                return 1.5 + 0.9 * np.sin(np.asarray(acc)) if not np.isscalar(acc) else np.array([[1.5 + 0.9 * np.sin(acc)]])
            if op == "mix":
                return np.full((1, 1), np.nan)
            if op.startswith("fn:"):
                n = op[3:]
                xs = [np.asarray(ev(x), float) for x in a]
                f = {
                    "sqrt": np.sqrt, "exp": np.exp, "log10": np.log10, "log": np.log, "abs": np.abs, "floor": np.floor,
                    "ceil": np.ceil, "isnan": np.isnan, "sin": np.sin, "cos": np.cos, "arctan": np.arctan, "arccos": lambda x: np.arccos(np.clip(x, -1.0, 1.0)), "arcsin": lambda x: np.arcsin(np.clip(x, -1.0, 1.0)), "tan": np.tan, "round": np.round,
                    "sign": np.sign, "int": np.trunc, "isfinite": np.isfinite, "log2": np.log2, "expm1": np.expm1, "log1p": np.log1p,
                    "max": np.maximum, "min": np.minimum, "mod": np.mod, "floordiv": np.floor_divide, "hypot": np.hypot, "nan0": lambda z: np.where(np.isnan(z), 0.0, z),
                    "trunc": np.trunc, "narrow": narrow,
                }.get(n)
                if f is None:
                    raise Undecided("function " + n)
                return f(*xs)
        raise Undecided("op " + op)


def same(a, b, rtol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    if a.dtype == bool or b.dtype == bool:
        return bool(np.all(a.astype(float) == b.astype(float)))
    a, b = a.astype(float), b.astype(float)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.isinf(a) & (a > 0), np.isinf(b) & (b > 0)):
        return False
    x, y = a[fin], b[fin]
    if x.size == 0:
        return True
    # a value that cancels to (numerically) zero is compared to the overall magnitude
    return bool(np.all(np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + 1e-300))


def leaves(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("var", "uof", "atom", "has", "eqs", "bvar", "unk"):
            acc.add(x)
        for y in x.args:
            if isinstance(y, E):
                st.append(y)
    return acc


def has_op(e, op):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == op:
            return True
        st += [y for y in x.args if isinstance(y, E)]
    return False
