"""C14: spectral bins partition the light of a channel; C13: their layout."""
from .. import expr as X
from .. import model as M
from . import stellar, diffuse
from .stellar import M_num, mul, row


def ends(I, n, table="self.table"):
    lo, hi = row(M_num(I, table + "[LeftBinEdge]"), 0), row(M_num(I, table + "[RightBinEdge]"), n - 1)
    for a in ("lt", "le"):
        for b in ("lt", "le"):
            yield X.AND(X.cmp(a, lo, X.LAM), X.cmp(b, X.LAM, hi))


def star(ctx, n):
    where = "exorad/models/instruments/spectrometer.py Spectrometer.propagate_target"
    m = stellar.setup("Spectrometer", n)
    r = ctx.run("star in %d bins" % n, where, m, lambda I, st: I.call(I.getattr(I.region("self"), "propagate_target", st), [I.region("target")], {}, st))
    if r is None:
        return
    I, st, v = r
    F = M_num(I, "target.star.sed.data")
    qe, t, w = stellar.efficiency(I)
    d = stellar.density(I)
    for col, f in (("starFlux", mul(w, F)), ("starSignal", d)):
        got = ctx.col(I, st, v, col)
        got = X.red("sum", got.e, "row") if got is not None else None
        ctx.eq_any("bins partition %s (%d bins)" % (col, n), where, got, [X.trapz(mul(f, stellar.boolnum(b)), X.LAM) for b in ends(I, n)])


def diffuse_light(ctx, n):
    where = "exorad/models/instruments/instrument.py Spectrometer.propagate_diffuse_foreground"
    m = diffuse.setup("Spectrometer", n, ["frg"])

    r = ctx.run("diffuse light in %d bins" % n, where, m, lambda I, st: I.call(I.getattr(I.region("self"), "propagate_diffuse_foreground", st), [I.region("target")], {}, st))
    if r is None:
        return
    I, st, v = r
    p = "target.foreground[frg]"
    rad = X.mul(M_num(I, p + ".data"), M_num(I, "self.built_instr[transmission_data][data][value]"))
    qe = M_num(I, "self.built_instr[qe_data][data][value]")
    qe = X.ite(X.inr(X.LAM, "'self.built_instr[qe_data]'"), qe, X.ZERO)
    dens = X.mul(diffuse.sig_density(I, rad, qe), M_num(I, "self.built_instr[pixel_bandwidth]"))
    npx = X.fn("int", X.div(X.var("self.built_instr[slit_width]"), X.var("self.description[detector][delta_pix][value]")))
    cv = X.mk("conv", dens, npx, rows=None, wl=True)
    got = ctx.col(I, st, v, "frg_signal")
    if got is not None:
        got = X.red("sum", X.div(got.e, M_num(I, "self.built_instr[window_spatial_width]")), "row")
    ctx.eq_any("bins partition the light behind a slit (%d bins)" % n, where, got, [X.red("sum", X.sel(cv, b), "wl") for b in ends(I, n)],
               spec={"force": {"has(self.built_instr,slit_width)": True}})


def partition(ctx):
    for n in (2, 3):
        star(ctx, n)
        diffuse_light(ctx, n)
