"""C35: signals keep what they are given, in the units of their kind."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from .stellar import U

SRC = '''
import numpy as np
from astropy import units as u
from exorad.models import signal as S


def make(kind, wl, data, hours):
    if kind == "any":
        if hours is None:
            return S.CustomSignal(wl, data, u.W / u.m ** 2)
        return S.CustomSignal(wl, data, u.W / u.m ** 2, hours)
    k = getattr(S, kind)
    return k(wl, data) if hours is None else k(wl, data, hours)


def rebinned(kind, wl, data, new):
    s = make(kind, wl, data, None)
    s.spectral_rebin(new)
    return s


def twice(kind, wl, data, new):
    s = make(kind, wl, data, None)
    o = make(kind, wl, data, None)
    s.spectral_rebin(new)
    return o
'''
W = "exorad/models/signal.py "
KINDS = {"Signal": "", "Sed": "W m-2 um-1", "Radiance": "W m-2 um-1 sr-1", "CountsPerSeconds": "ct s-1", "any": "W m-2"}
# a unit of the same kind, and one of another
OTHER = {"Signal": ("um nm-1", "m"), "Sed": ("erg s-1 cm-2 nm-1", "W m-2"), "Radiance": ("W m-2 nm-1 arcsec-2", "W m-2 um-1"), "CountsPerSeconds": ("ct hr-1", "ct"),
         "any": ("erg s-1 cm-2", "W m-3")}


def unit(s):
    return U(s) if s else X.ONE


def model(wl="um", data="", rows=3, isq=True, new=None):
    m = M.Model(1)
    for p, u in (("wl", wl), ("data", data), ("new", new)):
        if u is None:
            continue
        n = rows if p != "new" else 5
        q = isq or p == "new"
        e = X.var(p, rows=n, kind="num")
        m.exact[p] = {"num": Num(X.mul(e, unit(u)) if q else e, unit(u) if q else None, q)}
    return m


def probed(ctx):
    if getattr(ctx, "_signals", None) is None:
        ctx._signals = ctx.repo.probed(SRC)
    return ctx._signals


def go(fn, kind, *names):
    return lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [kind] + [n if n is None else I.region(n) for n in names], {}, st)


def number(ctx, I, st, v, attr, name, want, u, where):
    n = I.lib.N(I.getattr(v, attr, st), st)
    ctx.eq("%s of a %s" % (attr, name), W + where, n, want)
    if n is not None:
        ctx.res.check(bool(n.isq) and n.unit is not None and I.lib.raw(n) is not None, "%s of a %s is a quantity" % (attr, name), W + where, "plain")
        if n.unit is not None:
            ctx.eq("unit of the %s of a %s" % (attr, name), W + where, n.unit, unit(u))


def made(ctx):
    for kind, u in KINDS.items():
        for wl, data in (("um", u), ("nm", OTHER[kind][0]), (None, None)):
            m = model(wl or "um", u if wl is None else data, isq=wl is not None)
            tag = "%s in %s and %s" % (kind, wl or "plain numbers", data if wl else "plain numbers")
            r = ctx.run(tag, W + "Signal", m, go("make", kind, "wl", "data", None), repo=probed(ctx), total={})
            if not r:
                continue
            I, st, v = r
            e, d = m.exact["wl"]["num"].e, m.exact["data"]["num"].e
            if wl is None:
                e, d = X.mul(e, U("um")), X.mul(d, unit(u))
            number(ctx, I, st, v, "wl_grid", tag, e, "um", "check_quantities")
            number(ctx, I, st, v, "data", tag, d, u, "check_quantities")
            number(ctx, I, st, v, "time_grid", tag, X.stack([X.ZERO]), "hr", "check_quantities")
        for wl, data, what in (("s", u, "wavelengths in s"), ("um", OTHER[kind][1], "data in %s" % OTHER[kind][1]), ("um", "s", "data in s")):
            ctx.refuses("%s with %s refused" % (kind, what), W + "check_quantities", model(wl, data), go("make", kind, "wl", "data", None), "made", repo=probed(ctx))


def shapes(ctx):
    m = model("um", "W m-2", rows=3)
    for tag, p, rows, wl, u in (("more data than wavelengths", "data", 4, False, "W m-2"), ("fewer data than wavelengths", "data", 2, False, "W m-2"),
                                ("wavelengths with two axes", "wl", 3, True, "um"), ("times with two axes", "t", 3, True, "hr")):
        m = model("um", "W m-2", rows=3)
        m.exact[p] = {"num": Num(X.mul(X.var(p, rows=rows, wl=wl, kind="num"), U(u)), U(u), True)}
        ctx.refuses("%s refused" % tag, W + "check_sizes", m, go("make", "any", "wl", "data", "t" if p == "t" else None), "made", repo=probed(ctx))


def resample(lib, fn, args, kw, st, node):
    from ..interp import Tup
    v = dict(zip(("x", "xp", "fp"), args))
    v.update(kw)
    x, xp, fp = [lib.N(v.get(k), st) for k in ("x", "xp", "fp")]
    if None in (x, xp, fp):
        return lib.I.unk("rebin", node)
    return Tup([v["x"], lib.I.cell(st, Num(law(x.e, xp.e, fp.e, fp.unit), fp.unit, True))])


def law(x, xp, fp, u):
    u = X.ONE if u is None else u
    row = lambda i: X.mul(u, X.opq("resample", X.el(x, i), *[X.el(e, k) for e in (xp, X.div(fp, u)) for k in range(3)]))
    return X.stack([X.ite(X.cmp("lt", X.el(x, i), X.el(x, (i + 1) % 5)), row(i), X.mul(u, X.K(float("nan")))) for i in range(5)])


def rebin(ctx):
    """the new grid, with the rebinned data (zero where there are none)"""
    for kind, u in KINDS.items():
        m = model("nm", OTHER[kind][0], new="um")
        r = ctx.run("rebinned " + kind, W + "spectral_rebin", m, go("rebinned", kind, "wl", "data", "new"), stub={"rebin": resample}, repo=probed(ctx), total={})
        if r:
            I, st, v = r
            new = m.exact["new"]["num"].e
            want = law(new, m.exact["wl"]["num"].e, m.exact["data"]["num"].e, unit(u))
            want = X.stack([X.ite(X.el(want, i).args[0], X.el(want, i).args[1], X.ZERO) for i in range(5)])
            number(ctx, I, st, v, "wl_grid", "rebinned " + kind, new, "um", "spectral_rebin")
            number(ctx, I, st, v, "data", "rebinned " + kind, want, u, "spectral_rebin")
        r = ctx.run("other " + kind, W + "spectral_rebin", m, go("twice", kind, "wl", "data", "new"), stub={"rebin": resample}, repo=probed(ctx), total={})
        if r:
            I, st, v = r
            number(ctx, I, st, v, "data", "%s of the same data as a rebinned one" % kind, m.exact["data"]["num"].e, u, "spectral_rebin")
    own_grid(ctx)


def own_grid(ctx):
    """rebinned onto the wavelengths it has, with a datum that is not a number"""
    for kind, u in KINDS.items():
        m = M.Model(1)
        at = X.stack([X.add(X.K(10.0 + i), X.mul(X.K(0.3), X.var("wl%d" % i))) for i in range(4)])
        d = X.stack([X.K(float("nan")) if i == 2 else X.var("data%d" % i) for i in range(4)])
        for p, e, un in (("wl", at, "um"), ("new", at, "um"), ("data", d, u)):
            m.exact[p] = {"num": Num(X.mul(e, unit(un)), unit(un), True)}

        def f(I, st, kind=kind):
            I.stubs.pop("rebin", None)
            return go("twice", kind, "wl", "data", "new")(I, st)
        r = ctx.run("other %s on the same wavelengths" % kind, W + "spectral_rebin", m, f, repo=probed(ctx), total={})
        if r:
            I, st, v = r
            number(ctx, I, st, v, "data", "%s of the same data as one rebinned onto the wavelengths it has" % kind, m.exact["data"]["num"].e, u, "spectral_rebin")
