"""C31: what an optical element does to the light, from its description."""
from .. import expr as X
from .. import model as M
from ..interp import ClsV, Num
from ..repo import Broken
from .stellar import boolnum

D = "description"
WHERE = "exorad/models/optics/opticalElement.py OpticalElement"


def setup(keys, data=None, use=None, colname=None):
    m = M.Model(1)
    m.exact[D] = {"keys": ["value", "type"] + keys, "dcls": "dict"}
    m.exact["wl"] = {"num": Num(X.LAM, X.uof("wl"), True, "wl")}
    for k in ("transmission", "reflectivity", "emissivity"):
        m.exact["%s[%s]" % (D, k)] = {"keys": ["value"]}
        m.exact["%s[%s][value]" % (D, k)] = M.n("%s[%s][value]" % (D, k), isq=False)
    for k in ("wl_min", "wl_max"):
        m.exact["%s[%s]" % (D, k)] = {"keys": ["value"]}
        m.exact["%s[%s][value]" % (D, k)] = M.n("%s[%s][value]" % (D, k), kind="lam")
    if data:
        m.exact[D + "[data]"] = {"table": data}
        for c in data:
            p = "%s[data][%s]" % (D, c)
            m.exact[p] = {"num": Num(X.LAM, X.uof(p), True, "file")} if c == (colname or "Wavelength") or not colname and c == "wavelength" else M.n(p, wl=True, isq=False, grid="file")
    if use:
        m.exact[D + "[use][value]"] = {"str": use}
    if colname:
        m.exact[D + "[wl_col_name][value]"] = {"str": colname}
    return m


def element(ctx, name, m, raises=None):
    def f(I, st):
        c = I.repo.find_class("OpticalElement")
        if c is None:
            raise Broken("class OpticalElement is gone")
        return I.call(ClsV(c), [], {"description": I.region("description"), "wl": I.region("wl")}, st)
    if raises:
        I = ctx.interp(m)
        st = I.start()
        from ..interp import Diverge
        try:
            f(I, st)
        except Diverge:
            ctx.res.analysed |= I.analysed
            got = {r[0] for r in I.raises}
            if I.unks:
                ctx.res.und(name, WHERE, I.unks[0])
            else:
                ctx.res.check(bool(got), name, WHERE, "raises %s" % sorted(map(str, got)))
            return None
        if I.unks:
            ctx.res.und(name, WHERE, I.unks[0])
        else:
            ctx.res.bad(name, WHERE, "an element that cannot be described is accepted")
        return None
    return ctx.run(name, WHERE, m, f)


def attr(ctx, r, tag, a, want, spec=None):
    I, st, v = r
    x = I.getattr(v, a, st)
    if want is None:
        ctx.res.check(x is None, "%s: %s" % (tag, a), WHERE, "not None")
        return
    ctx.eq("%s: %s" % (tag, a), WHERE, I.num(x, st), want, spec)


def tabled(col):
    p = "%s[data][%s]" % (D, col)
    return X.ite(X.inr(X.LAM, "'file'"), X.var(p, wl=True), X.ZERO)


def check(ctx):
    W = ["Wavelength", "Transmission", "Reflectivity", "Emissivity"]
    for tag, data, use, col in (("transmission of a data file", ["Wavelength", "Transmission", "Emissivity"], None, "Transmission"),
                                ("reflectivity of a data file", ["Wavelength", "Reflectivity", "Emissivity"], None, "Reflectivity"),
                                ("the requested column", W, "Reflectivity", "Reflectivity"),
                                ("the requested column (2)", W, "Transmission", "Transmission"),
                                ("lower case wavelength column", ["wavelength", "Transmission", "Emissivity"], None, "Transmission")):
        r = element(ctx, tag, setup(["data", ("temperature",)] + (["use"] if use else []), data, use))
        if r:
            attr(ctx, r, tag, "transmission", tabled(col))
            attr(ctx, r, tag, "emissivity", tabled("Emissivity"))
    tag = "named wavelength column"
    r = element(ctx, tag, setup(["data", "wl_col_name"], ["lambda", "Wavelength", "wavelength", "Transmission", "Emissivity"], colname="lambda"))
    if r:
        attr(ctx, r, tag, "transmission", tabled("Transmission"))
        attr(ctx, r, tag, "emissivity", tabled("Emissivity"))
    opt = [("wl_min",), ("wl_max",), ("emissivity",)]
    for key in ("transmission", "reflectivity"):
        tag = "constant " + key
        r = element(ctx, tag, setup([(key,)] + opt))
        if r:
            t = X.ite(X.has(D, key), scalar(key), X.ONE)
            attr(ctx, r, tag, "transmission", t)
            attr(ctx, r, tag, "emissivity", emissivity())
    for use in ("transmission", "reflectivity"):
        tag = "%s chosen of the two" % use
        r = element(ctx, tag, setup(["transmission", "reflectivity", "use", ("emissivity",)], use=use))
        if r:
            attr(ctx, r, tag, "transmission", X.full(X.var("%s[%s][value]" % (D, use)), wl=True))
    element(ctx, "both transmission and reflectivity, neither chosen, are refused", setup(["transmission", "reflectivity"]), raises="KeyError")
    element(ctx, "a data file without transmission is refused", setup(["data"], ["Wavelength", "Emissivity"]), raises="KeyError")
    element(ctx, "a data file without emissivity is refused", setup(["data"], ["Wavelength", "Transmission"]), raises="KeyError")
    element(ctx, "a data file without wavelength is refused", setup(["data"], ["Transmission", "Emissivity"]), raises="KeyError")
    for there in (False, True):
        tag = "with temperature and solid angle" if there else "without temperature and solid angle"
        r = element(ctx, tag, setup(["temperature", "solid_angle"] if there else []))
        if not r:
            continue
        for key, a, u in (("temperature", "temperature", "K"), ("solid_angle", "angle", "sr")):
            p = "%s[%s][value]" % (D, key)
            unit = X.atom("unit:" + u)
            attr(ctx, r, tag, a, X.ite(X.has(p, ".unit"), X.var(p), X.mul(X.var(p), unit)) if there else None)
    r = element(ctx, "position", setup([]))
    if r:
        from ..interp import Phi
        I, st, v = r
        x = I.getattr(v, "position", st)
        for typ, want in (("detector box", "detector"), ("optics box", "optics box"), ("surface", "path"), ("slit", "path")):
            got = choose(x, typ)
            if got is NotImplemented:
                ctx.res.und("position of a %s" % typ, WHERE, "not decided")
            else:
                ctx.res.check(got == want, "position of a %s" % typ, WHERE, "%r where %r is required" % (got, want))


def choose(x, typ):
    """the string x in the case that the element has the given type"""
    from ..interp import Phi
    while isinstance(x, Phi):
        V = X.Val(1, {"strs": {D + "[type][value]": [typ]}})
        import numpy as np
        try:
            x = x.a if bool(np.all(V.ev(x.cond))) else x.b
        except X.Undecided:
            return NotImplemented
    return x if isinstance(x, str) else NotImplemented


def scalar(key):
    lo, hi = X.var(D + "[wl_min][value]", kind="lam"), X.var(D + "[wl_max][value]", kind="lam")
    cut = X.OR(X.AND(X.has(D, "wl_min"), X.cmp("lt", X.LAM, lo)), X.AND(X.has(D, "wl_max"), X.cmp("lt", hi, X.LAM)))
    return X.ite(cut, X.ZERO, X.full(X.var("%s[%s][value]" % (D, key)), wl=True))


def emissivity():
    box = X.eqs(D + "[type][value]", "detector box")
    return X.full(X.ite(X.has(D, "emissivity"), X.var(D + "[emissivity][value]"), boolnum(box)), wl=True)
