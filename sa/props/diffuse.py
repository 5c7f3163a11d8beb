"""C10: signal of diffuse light in a channel; C08: layering of the foregrounds."""
from .. import expr as X
from .. import model as M
from .stellar import M_num, mul, H, C, CT, U, row

SLIT = X.has("self.built_instr", "slit_width")


def inv(e):
    return X.pw(e, X.K(-1))


def setup(cls, rows, frgs):
    m = M.Model(rows)
    M.instrument(m, cls, rows)
    M.target(m)
    m.exact["target.foreground"] = {"keys": list(frgs), "dcls": "OrderedDict"}
    for f in frgs:
        p = "target.foreground[%s]" % f
        M.signal_rules(m, p, "Radiance", f, "W m-2 um-1 sr-1")
        m.exact[p + ".transmission"] = M.n(p + ".transmission", wl=True, unit=X.ONE, grid=f)
    m.exact["self.built_instr[window_spatial_width]"] = M.n("self.built_instr[window_spatial_width]", rows, isq=False)
    m.exact["self.built_instr[window_size_px]"] = M.n("self.built_instr[window_size_px]", rows, isq=False)
    m.exact["self.built_instr[slit_width]"] = M.n("self.built_instr[slit_width]", unit="um")
    return m


def omega_pix(I, d="self.description"):
    fx = X.div(X.var(d + "[Fnum_x][value]"), X.uof(d + "[Fnum_x][value]"))
    fy = X.div(X.var(d + "[Fnum_y][value]"), X.uof(d + "[Fnum_y][value]"))
    fy = X.ite(X.has(d, "Fnum_y"), fy, fx)
    lt = X.cmp("lt", fx, fy)
    return X.mul(X.opq("OmegaPix", X.ite(lt, fx, fy), X.ite(lt, fy, fx)), U("sr"))


def pix_area(d="self.description"):
    p = X.var(d + "[detector][delta_pix][value]")
    return X.mul(p, p)


def sig_density(I, radiance, qe, omega=None, d="self.description", lam=X.LAM):
    """photo-electrons per second, pixel and unit wavelength"""
    return mul(radiance, omega_pix(I, d) if omega is None else omega, pix_area(d), qe, lam, inv(H), inv(C), CT)


def binned(I, lam, k, table):
    lo, hi = M_num(I, table + "[LeftBinEdge]"), M_num(I, table + "[RightBinEdge]")
    return X.AND(X.cmp("lt", row(lo, k), lam), X.cmp("le", lam, row(hi, k)))


def law(I, radiance, rows, omega=None, table="self.table", built="self.built_instr", d="self.description", slit=SLIT, slit_width=None, grid=None, inside=None):
    """(signal, maximum signal in a pixel) per channel row; radiance: as a function of X.LAM; grid: the wavelengths it is sampled at"""
    qe = M_num(I, built + "[qe_data][data][value]")
    # without a slit every wavelength reaches every pixel
    lam = X.LAM if grid is None else grid
    s0 = X.trapz(sig_density(I, X.at(radiance, lam), X.at(qe, lam), omega, d, lam), lam)
    sig0, max0 = mul(s0, M_num(I, built + "[window_size_px]")), X.full(s0, rows=rows)
    # behind a slit the spectrum is dispersed and smeared over the slit image
    qe_in = X.ite(X.inr(X.LAM, "'%s[qe_data]'" % built) if inside is None else inside, qe, X.ZERO)
    dens = X.mul(sig_density(I, radiance, qe_in, omega, d), M_num(I, built + "[pixel_bandwidth]"))
    sw = X.var(built + "[slit_width]") if slit_width is None else slit_width
    n = X.fn("int", X.div(sw, X.var(d + "[detector][delta_pix][value]")))
    cv = X.mk("conv", dens, n, rows=None, wl=True)
    sig1 = X.stack([X.mul(X.red("sum", X.sel(cv, binned(I, X.LAM, k, table)), "wl"), row(M_num(I, built + "[window_spatial_width]"), k)) for k in range(rows)])
    max1 = X.stack([X.red("max", X.sel(cv, binned(I, X.LAM, k, table)), "wl") for k in range(rows)])
    return X.ite(slit, sig1, sig0), X.ite(slit, max1, max0)


def propagate(ctx, cls, rows, frgs):
    where = "exorad/models/instruments/instrument.py %s.propagate_diffuse_foreground" % cls
    m = setup(cls, rows, frgs)
    r = ctx.run("%s foreground signal (%d foregrounds)" % (cls, len(frgs)), where, m,
                lambda I, st: I.call(I.getattr(I.region("self"), "propagate_diffuse_foreground", st), [I.region("target")], {}, st))
    if r is None:
        return
    I, st, v = r
    T = M_num(I, "self.built_instr[transmission_data][data][value]")
    for f in reversed(frgs):
        p = "target.foreground[%s]" % f
        rad = X.mul(M_num(I, p + ".data"), T)
        s, mx = law(I, rad, rows)
        ctx.eqcol(I, st, v, f + "_signal", s, where, spec={"noties": True})
        ctx.eqcol(I, st, v, f + "_MaxSignal_inPixel", mx, where, spec={"noties": True})
        T = X.mul(T, X.ite(X.has(p, ".transmission"), M_num(I, p + ".transmission"), X.ONE))
    if len(frgs) == 1:
        extra = set(ctx.cols(I, st, v)) - {frgs[0] + "_signal", frgs[0] + "_MaxSignal_inPixel"}
        ctx.res.check(not extra, "no other column", where, "also %s" % sorted(map(str, extra)))


def signal(ctx):
    propagate(ctx, "Photometer", 1, ["frg"])
    propagate(ctx, "Spectrometer", 3, ["frg"])


def layering(ctx):
    propagate(ctx, "Photometer", 1, ["frg2", "frg3", "frg1"])
    propagate(ctx, "Spectrometer", 2, ["frg2", "frg3", "frg1"])
