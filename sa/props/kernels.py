"""C36: the closed forms the radiometry rests on."""
from .. import expr as X
from .. import model as M
from ..interp import Num, Tup, Ref
from ..repo import Broken
from .stellar import mul, U

K = X.K
EX = "exorad/utils/exolib.py "


def call(ctx, name, m, args, fn="exorad.utils.exolib", label="", **kw):
    def g(I, st):
        I.stubs.pop(name, None)
        return I.call(I.repo_fn(fn, name), [I.region(a) if isinstance(a, str) else a for a in args], {}, st)
    return ctx.run(name + label, EX + name, m, g, **kw)


def items(I, v, st):
    its = I.lib.iterate(v, st, None)
    return [x for x, _ in its] if its is not None else []


def planck(ctx):
    m = M.Model(1)
    m.exact["wl"] = M.lamq("wl")
    m.exact["T"] = {"num": Num(mul(X.var("T"), K(3000.0), U("K")), X.uof("T"), True)}
    r = call(ctx, "planck", m, ["wl", "T"])
    if r is None:
        return
    I, st, v = r
    a = mul(K(119104276.8), X.pw(U("um"), K(5.0)), U("W m-2 sr-1 um-1"))
    b = mul(K(14387.7516), U("um"), U("K"))
    law = X.div(mul(a, X.pw(X.LAM, K(-5.0))), X.sub(X.fn("exp", X.div(b, mul(X.LAM, m.exact["T"]["num"].e))), X.ONE))
    got = I.num(v, st)
    ctx.eq("black body radiance", EX + "planck", got, law, {"force": nofault(got)})


def nofault(n):
    return {l.args[0]: False for l in X.leaves(n.e) if l.op == "bvar" and l.args[0].startswith("exc@")} if n is not None else {}


def omega(ctx):
    for two in (True, False):
        m = M.Model(1)
        for k in ("Fx", "Fy"):
            m.exact[k] = {"num": Num(X.add(K(3.0), X.var(k)), None, False)}
        fx, fy = (m.exact[k]["num"].e for k in ("Fx", "Fy"))
        if not two:
            fy = fx
        lab = "" if two else ", one focal ratio"
        r = call(ctx, "OmegaPix", m, ["Fx", "Fy"] if two else ["Fx"], label=lab)
        if r is None:
            continue
        I, st, v = r
        half = lambda f: X.div(K(0.5), f)
        big = X.cmp("lt", fy, fx)
        a, b = X.ite(big, half(fy), half(fx)), X.ite(big, half(fx), half(fy))
        sq = lambda e: X.mul(e, e)
        root = X.pw(X.add(X.ONE, sq(a)), K(0.5))
        A = X.div(mul(K(4.0), b), X.mul(a, root))
        k2 = X.div(X.sub(sq(a), sq(b)), X.add(X.ONE, sq(a)))
        al2 = X.sub(X.ONE, sq(X.div(b, a)))
        law = mul(X.sub(K(6.283185307179586), X.mul(A, X.opq("ellippi", al2, k2))), U("sr"))
        ctx.eq("solid angle of an elliptical beam" + lab, EX + "OmegaPix", I.num(v, st), law)


def rebin(ctx):
    """samples of the input at (position + jitter)"""
    even = lambda n, lo, step, jit: [(lo + i * step, jit) for i in range(n)]
    new = even(5, 10.0, 1.0, 0.3)
    cases = (("many samples", even(3, 10.0, 1.0, 0.3), even(13, 9.45, 0.3, 0.1)), ("few samples", new, even(4, 10.4, 1.0, 0.2)),
             ("samples across the margins", even(3, 10.0, 1.0, 0.3), even(18, 8.0, 0.3, 0.1)),
             ("sparse samples", new, [(5.0, 1.0), (10.6, 0.3), (13.8, 0.3), (20.0, 1.0)]), ("one sample in range", new, [(5.0, 1.0), (12.0, 1.0), (20.0, 1.0)]),
             ("far samples", even(3, 10.0, 1.0, 0.3), [(2.0, 1.0), (5.0, 1.0)] + even(12, 9.45, 0.3, 0.1) + [(30.0, 1.0)]),
             ("two samples in range", [(10.0, 0.5), (14.0, 0.5)], [(11.0, 0.5), (12.0, 0.5)]),
             ("samples in the margins", even(3, 10.0, 1.0, 0.3), [(9.4, 0.1)] + even(4, 10.3, 0.3, 0.1) + [(13.4, 0.1), (13.8, 0.1)]),
             ("samples close and apart", even(4, 10.0, 1.0, 0.2), even(4, 9.6, 0.3, 0.1) + [(12.1, 0.2), (13.6, 0.2)]),
             ("new points close and apart", [(10.0, 0.1), (10.3, 0.1), (13.0, 0.2), (15.0, 0.3)], even(8, 9.6, 0.8, 0.1)),
             ("no sample in range", new, [(3.0, 1.0), (20.0, 1.0)]), ("one new point", [(10.0, 0.3)], even(9, 8.8, 0.3, 0.1)))
    for tag, nx, np_ in cases:
        rebinned(ctx, tag, nx, np_)
    m = M.Model(1)
    for p, u in (("x", "um"), ("xp", "nm")):
        m.exact[p] = {"num": Num(mul(X.stack([X.add(K(10.0 + i), mul(K(0.2), X.var("%s%d" % (p, i)))) for i in range(4)]), U(u)), U(u), True)}
    m.exact["fp"] = M.n("fp", 4)

    def g(I, st):
        I.stubs.pop("rebin", None)
        return I.call(I.repo_fn("exorad.utils.exolib", "rebin"), [I.region(a) for a in ("x", "xp", "fp")], {}, st)
    ctx.refuses("rebin between different units refused", EX + "rebin", m, g, "coordinates in um and nm are mixed")


def rebin_law(x, xp, fp, funit):
    nx, np_ = x.rows, xp.rows
    el = lambda e, i: X.el(e, i)
    d = lambda e, i: X.sub(el(e, i + 1), el(e, i))
    kept = [X.AND(X.cmp("lt", X.mul(K(0.9), el(x, 0)), el(xp, i)), X.cmp("lt", el(xp, i), X.mul(K(1.1), el(x, nx - 1)))) for i in range(np_)]
    mx, pair = K(-1.0), X.FALSE
    for i in range(np_ - 1):
        both = X.AND(kept[i], kept[i + 1])
        pair = X.OR(pair, both)
        mx = X.ite(X.AND(both, X.cmp("lt", mx, d(xp, i))), d(xp, i), mx)
    law = X.piecewise(xp, fp, x, X.ZERO)
    if nx > 1:
        mn = d(x, 0)
        for i in range(1, nx - 1):
            mn = X.ite(X.cmp("lt", d(x, i), mn), d(x, i), mn)
        mid = [X.mul(K(0.5), X.add(el(x, i), el(x, i + 1))) for i in range(nx - 1)]
        x0 = X.sub(el(x, 0), X.mul(K(0.5), X.sub(mid[0], el(x, 0))))
        x1 = X.add(el(x, nx - 1), X.mul(K(0.5), X.sub(el(x, nx - 1), mid[-1])))
        law = X.ite(X.AND(pair, X.cmp("lt", mx, mn)), mul(X.binmeans(xp, X.div(fp, funit), X.stack([x0] + mid + [x1])), funit), law)
    return law


def dirty(ctx):
    """coordinates that are repeated or missing are left out with their values"""
    nan = float("nan")
    u = U("um")
    coarse, fine = [10.0, 11.0, 12.0], [9.2, 9.5, 9.9, 10.3, 10.8, 11.1, 11.6, 11.9, 12.3, 12.6]
    for tag, nx, np_ in (("a missing coordinate", coarse, fine[:3] + [nan] + fine[3:]), ("two missing coordinates", coarse, [nan] + fine + [nan]),
                         ("a missing new coordinate", coarse[:1] + [nan] + coarse[1:], fine), ("a repeated coordinate", coarse, fine[:4] + fine[3:]),
                         ("two repeated coordinates", coarse, fine[:2] + fine[1:6] + fine[5:]), ("a coordinate repeated twice", coarse, fine[:4] + fine[3:4] + fine[3:]),
                         ("a repeated new coordinate", coarse[:2] + coarse[1:], fine), ("repeated new coordinates to interpolate at", fine[:2] + fine[1:5] + fine[4:], coarse),
                         ("a missing coordinate to interpolate from", fine, coarse[:1] + [nan] + coarse[1:])):
        m = M.Model(1)
        grid = lambda pts: mul(X.stack([K(v) for v in pts]), u)
        m.exact["x"] = {"num": Num(grid(nx), u, True)}
        m.exact["xp"] = {"num": Num(grid(np_), u, True)}
        vals = [X.var("f%d" % sorted(v for v in np_ if v == v).index(v)) if v == v else X.var("lost%d" % i) for i, v in enumerate(np_)]
        m.exact["fp"] = {"num": Num(X.stack(vals), X.ONE, True)}
        r = call(ctx, "rebin", m, ["x", "xp", "fp"], label=", " + tag, total={})
        if r is None:
            continue
        I, st, v = r
        its = items(I, v, st)
        if len(its) != 2:
            ctx.res.und("rebin, " + tag, EX + "rebin", "%s" % v)
            continue
        new = [x for i, x in enumerate(nx) if x == x and (i == 0 or x != nx[i - 1])]
        keep = [i for i, x in enumerate(np_) if x == x and (i == 0 or x != np_[i - 1])]
        ctx.eq("rebin, %s: grid" % tag, EX + "rebin", I.num(its[0], st), grid(new))
        law = rebin_law(X.stack([K(v) for v in new]), X.stack([K(np_[i]) for i in keep]), X.stack([vals[i] for i in keep]), X.ONE)
        ctx.eq("rebin, %s: values" % tag, EX + "rebin", I.num(its[1], st), law)


def rebinned(ctx, tag, nx, np_):
    m = M.Model(1)
    u = U("um")
    grid = lambda p, pts: mul(X.stack([X.add(K(at), mul(K(jit), X.var("%s%d" % (p, i)))) for i, (at, jit) in enumerate(pts)]), u)
    m.exact["x"] = {"num": Num(grid("x", nx), u, True)}
    m.exact["xp"] = {"num": Num(grid("xp", np_), u, True)}
    nx, np_ = len(nx), len(np_)
    m.exact["fp"] = M.n("fp", np_)
    x, xp, fp = X.div(m.exact["x"]["num"].e, u), X.div(m.exact["xp"]["num"].e, u), m.exact["fp"]["num"].e
    r = call(ctx, "rebin", m, ["x", "xp", "fp"], label=", " + tag, total={})
    if r is None:
        return
    I, st, v = r
    its = items(I, v, st)
    if len(its) != 2:
        ctx.res.und("rebin, " + tag, EX + "rebin", "%s" % v)
        return
    law = rebin_law(x, xp, fp, X.uof("fp"))
    ctx.eq("rebin, %s: grid" % tag, EX + "rebin", I.num(its[0], st), m.exact["x"]["num"].e)
    ctx.eq("rebin, %s: values" % tag, EX + "rebin", I.num(its[1], st), law)
