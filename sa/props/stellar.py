"""C09: the stellar signal in a channel."""
from .. import expr as X
from .. import model as M

FORCE = X.bvar("truthy:self.payload[optics][ForceChannelWlEdge][value]")
SKY = X.has("target", ".skyTransmission")
H, C = X.atom("const.h"), X.atom("const.c")
CT = X.atom("unit:ct")


def U(s):
    from ..units import parse_unit
    return parse_unit(s)


def mul(*es):
    r = X.ONE
    for e in es:
        r = X.mul(r, e)
    return r


def leaf(I, path):
    """content of an input quantity as the interpreter sees it"""
    return M_num(I, path)


def M_num(I, path, **k):
    h = I.hint_fn(path)
    if h and "num" in h:
        return h["num"].e
    return X.var(path)


def outside(I, lam, lo="self.description[wl_min][value]", hi="self.description[wl_max][value]"):
    return X.OR(X.cmp("lt", lam, M_num(I, lo)), X.cmp("lt", M_num(I, hi), lam))


def row(e, k):
    return X.el(e, k)


def in_bin(I, lam, k, table="self.table"):
    lo, hi = M_num(I, table + "[LeftBinEdge]"), M_num(I, table + "[RightBinEdge]")
    return X.AND(X.cmp("le", row(lo, k), lam), X.cmp("lt", lam, row(hi, k)))


def boolnum(c):
    return X.ite(c, X.ONE, X.ZERO)


def setup(cls, rows):
    m = M.Model(rows)
    M.instrument(m, cls, rows)
    M.target(m)
    m.exact["self.built_instr[PRF]"] = M.n("self.built_instr[PRF]", wl=True, isq=False, grid="psf")
    return m


def efficiency(I):
    qe = M_num(I, "self.built_instr[qe_data][data][value]")
    tr = M_num(I, "self.built_instr[transmission_data][data][value]")
    sky = M_num(I, "target.skyTransmission.data")
    t = X.mul(tr, X.ite(SKY, sky, X.ONE))
    t = X.ite(X.AND(FORCE, outside(I, X.LAM)), X.ZERO, t)
    w = X.ite(X.AND(FORCE, outside(I, X.LAM)), X.ZERO, X.ONE)
    return qe, t, w


def density(I):
    """detected star photo-electrons per unit wavelength"""
    qe, t, w = efficiency(I)
    F = M_num(I, "target.star.sed.data")
    return mul(X.var("self.payload[optics][Atel][value]"), t, qe, F, X.LAM, X.pw(H, X.K(-1)), X.pw(C, X.K(-1)), CT)


def photometer(ctx):
    where = "exorad/models/instruments/photometer.py Photometer.propagate_target"
    m = setup("Photometer", 1)
    r = ctx.run("photometer star signal", where, m, lambda I, st: I.call(I.getattr(I.region("self"), "propagate_target", st), [I.region("target")], {}, st))
    if r is None:
        return
    I, st, v = r
    F = M_num(I, "target.star.sed.data")
    qe, t, w = efficiency(I)
    sig = X.trapz(density(I), X.LAM)
    D = "self.description[aperture]"
    corr = X.ite(X.has(D, "apertureCorrection"), X.var(D + "[apertureCorrection][value]"), X.ite(X.has(D, "EnE"), X.var(D + "[EnE][value]"), X.ONE))
    ctx.eqcol(I, st, v, "starFlux", X.trapz(X.mul(w, F), X.LAM), where)
    ctx.eqcol(I, st, v, "starSignal", sig, where)
    ctx.eqcol(I, st, v, "star_signal_inAperture", X.mul(sig, corr), where)
    ctx.eqcol(I, st, v, "star_MaxSignal_inPixel", X.mul(sig, X.red("max", M_num(I, "self.built_instr[PRF]"), "all")), where)


def spectrometer(ctx):
    where = "exorad/models/instruments/spectrometer.py Spectrometer.propagate_target"
    n = 3
    m = setup("Spectrometer", n)
    r = ctx.run("spectrometer star signal", where, m, lambda I, st: I.call(I.getattr(I.region("self"), "propagate_target", st), [I.region("target")], {}, st))
    if r is None:
        return
    I, st, v = r
    F = M_num(I, "target.star.sed.data")
    qe, t, w = efficiency(I)
    d = density(I)
    per = lambda f: X.stack([f(k) for k in range(n)])
    ctx.eqcol(I, st, v, "starFlux", per(lambda k: X.trapz(mul(w, F, boolnum(in_bin(I, X.LAM, k))), X.LAM)), where)
    sig = per(lambda k: X.trapz(mul(d, boolnum(in_bin(I, X.LAM, k))), X.LAM))
    ctx.eqcol(I, st, v, "starSignal", sig, where)
    ctx.eqcol(I, st, v, "star_signal_inAperture", sig, where)
    lo, hi = M_num(I, "self.table[LeftBinEdge]"), M_num(I, "self.table[RightBinEdge]")
    pix = mul(d, M_num(I, "self.built_instr[pixel_bandwidth]"), M_num(I, "self.built_instr[gain_prf_data][data][value]"))
    mx = per(lambda k: X.red("max", X.sel(pix, X.AND(X.cmp("lt", row(lo, k), X.LAM), X.cmp("lt", X.LAM, row(hi, k)))), "wl"))
    # the edges of the pixel selection are not part of the statement: compare away from ties
    ctx.eqcol(I, st, v, "star_MaxSignal_inPixel", mx, where, spec={"noties": True})


def sky(ctx, cls, n):
    """the transmission of the sky in the bins of a channel"""
    from ..interp import Num
    where = "exorad/models/instruments/instrument.py %s.propagate_target" % cls
    m = setup(cls, n)
    lo, hi = (m.exact["self.table[%s]" % c]["num"].e for c in ("LeftBinEdge", "RightBinEdge"))
    wl = mul(X.K(0.5), X.add(lo, hi))
    m.exact["self.table[Wavelength]"] = {"num": Num(wl, M.UM, True)}
    r = ctx.run("%s, sky of a target" % cls, where, m, lambda I, st: I.call(I.getattr(I.region("self"), "propagate_target", st), [I.region("target")], {}, st), total=None)
    if r is None:
        return
    I, st, v = r
    s = X.ite(X.inr(wl, "'sky'"), X.at(M_num(I, "target.skyTransmission.data"), wl), X.ZERO)
    s = X.ite(X.AND(FORCE, outside(I, wl)), X.ZERO, s)
    ctx.eqcol(I, st, v, "foreground_transmission", s, where, cond=SKY, spec={"noties": True}, label="(%s)" % cls)


def check(ctx):
    photometer(ctx)
    spectrometer(ctx)
    sky(ctx, "Photometer", 1)
    sky(ctx, "Spectrometer", 2)
