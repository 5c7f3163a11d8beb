"""C32: quantum efficiency, photometric windows and point spread function of a channel."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from ..units import parse_unit
from .stellar import M_num, mul, row

K = X.K
D = "self.description"
DET = D + "[detector]"
PI = K(3.141592653589793)
W = "exorad/models/instruments/photometer.py Photometer.builder"


def q(m, path, **k):
    m.exact[path] = M.n(path, **k)


def channel(cls, rows, qe="value"):
    from ..interp import Num
    m = M.Model(rows)
    m.exact["self"] = {"cls": cls}
    m.exact["self.name"] = {"str": "chA"}
    m.exact["self.table"] = {"table": []}
    m.exact["self.built_instr"] = {"keys": [], "dcls": "dict"}
    for k, lam in (("wl_min", "lam_lo"), ("wl_max", "lam_hi")):
        q(m, "%s[%s][value]" % (D, k), kind=lam)
    q(m, DET + "[wl_min][value]", kind="lam_lo")
    q(m, DET + "[cut_off][value]", kind="lam_hi")
    q(m, DET + "[delta_pix][value]")
    for k in ("Fnum_x", "Fnum_y"):
        q(m, "%s[%s][value]" % (D, k), isq=False)
    m.exact[DET] = {"keys": ["wl_min", "cut_off", "delta_pix", "qe"], "dcls": "OrderedDict"}
    m.exact[D + "[PSF]"] = {"keys": ["value", ("format",)], "dcls": "OrderedDict"}
    # quantum efficiency: a number, or a table with a column named after the channel
    m.exact[DET + "[qe]"] = {"keys": ["value"] if qe == "value" else ["datafile", "data"], "dcls": "OrderedDict"}
    q(m, DET + "[qe][value]", isq=False)
    m.exact[DET + "[qe][data]"] = {"table": ["chB", "Wavelength", "chA"]}
    m.exact[DET + "[qe][data][Wavelength]"] = {"num": Num(X.LAM, X.uof("qe"), True, "qe")}
    for c in ("chA", "chB"):
        q(m, "%s[qe][data][%s]" % (DET, c), wl=True, isq=False, grid="qe")
    return m


def mid(I):
    lo, hi = (M_num(I, "%s[%s][value]" % (D, k)) for k in ("wl_min", "wl_max"))
    return mul(K(0.5), X.add(lo, hi))


def quantum(I, wl, qe):
    """quantum efficiency at a wavelength"""
    if qe == "value":
        lo, hi = (M_num(I, "%s[%s][value]" % (DET, k)) for k in ("wl_min", "cut_off"))
        return X.ite(X.AND(X.cmp("le", lo, wl), X.cmp("le", wl, hi)), M_num(I, DET + "[qe][value]"), X.ZERO)
    return X.ite(X.inr(wl, "'qe'"), X.at(M_num(I, DET + "[qe][data][chA]"), wl), X.ZERO)


FMT = X.AND(X.has(D, "PSF"), X.has(D + "[PSF]", "format"))


def fmt(s):
    return X.AND(FMT, X.eqs(D + "[PSF][format][value]", s))


KERNELS = {"binnedPSF": ("F_x", "F_y", "wl", "delta_pix", "filename"), "paosPSF": ("wl", "delta_pix", "filename"), "pixel_based_psf": ("delta_pix", "filename")}
FILE = X.opq("file", D + "[PSF][value]")


def image(name, i, es, whole):
    """one of the results of a kernel: an image when looked into"""
    e = X.mk("opq", "%s.%d" % (name, i), *es, rows=None, wl=False)
    return X.mul(X.var("psf%d" % i, rows=2, wl=True), e) if whole and i < 2 else e


def kernel(name, whole):
    """the point spread function of a format, as an arbitrary function of what identifies it"""
    def f(lib, fn, args, kw, st, node):
        from ..interp import Num, Tup
        a = fn.node.args
        vals = dict(zip([p.arg for p in a.posonlyargs + a.args], args), **kw)
        es = []
        for k in KERNELS[name]:
            v = vals.get(k)
            es.append(file_of(lib.I, v) if k == "filename" else lib.N(v, st).e)
        return Tup([lib.I.cell(st, Num(image(name, i, es, whole), None, False)) for i in range(3)])
    return f


def file_of(I, v):
    from ..interp import Phi, Ref
    if isinstance(v, Phi):
        return X.ite(v.cond, file_of(I, v.a), file_of(I, v.b))
    if isinstance(v, Ref):
        return X.opq("file", I.o(v).path)
    return X.opq("file", str(v))


PSFS = {k: kernel(k, False) for k in KERNELS}
IMAGES = {k: kernel(k, True) for k in KERNELS}


def psf(I, wl, i, whole=False):
    """what the kernel of the format of the point spread function returns, and the inputs it takes"""
    fx, fy = (X.var("%s[Fnum_%s][value]" % (D, a)) for a in "xy")
    dp = M_num(I, DET + "[delta_pix][value]")
    name = X.ite(X.has(D, "PSF"), FILE, X.opq("file", "None"))

    def k(n, *a):
        return image(n, i, a, whole)
    return fx, fy, dp, X.ite(fmt("pixel_based"), k("pixel_based_psf", dp, name), X.ite(fmt("paos"), k("paosPSF", wl, dp, name), k("binnedPSF", fx, fy, wl, dp, name)))


# ---------------------------------------------------------------- spectrometers
SW = "exorad/models/instruments/spectrometer.py Spectrometer.builder"
SOL = D + "[wlSolution][data]"
PIXELS = 2
OPTIONS = ("PSF", "WFErms", "window_spatial_scale", "window_spatial_pixel", "window_spectral_pixel")


def spectral(R, qe="value", ence=False, options=OPTIONS):
    from ..interp import Num
    m = channel("Spectrometer", 2, qe)
    m.exact[D] = {"keys": ["wl_min", "wl_max", "Fnum_x", "Fnum_y", "detector", "wlSolution"] + ([] if R is None else ["targetR"])
                  + (["EncESolution"] if ence else []) + [(k,) for k in options], "dcls": "OrderedDict"}
    m.exact[D + "[wlSolution]"] = {"keys": ["data"]}
    m.exact[SOL] = {"table": ["Wavelength", "x", "y"]}
    m.exact[SOL + "[Wavelength]"] = {"num": Num(X.LAM, X.uof("sol"), True, "sol")}
    q(m, SOL + "[x]", wl=True, grid="sol")
    if R == "native":
        m.exact[D + "[targetR][value]"] = {"str": "native"}
    elif R is not None:
        q(m, D + "[targetR][value]", isq=False)
    m.exact[D + "[targetR]"] = {"keys": ["value"], "dcls": "OrderedDict"}
    for k in OPTIONS[2:]:
        q(m, "%s[%s][value]" % (D, k), isq=False)
    q(m, D + "[WFErms][value]", kind="small")
    if ence:
        e = D + "[EncESolution][data]"
        m.exact[e] = {"table": ["Wavelength", "EE"]}
        m.exact[e + "[Wavelength]"] = {"num": Num(X.LAM, X.uof("ence"), True, "ence")}
        q(m, e + "[EE]", wl=True, isq=False, grid="ence")
    return m


def samples(ranges):
    """pixel positions and bin edges: as many as the shape of the inputs under study"""
    from ..interp import Num

    def arange(lib, name, a, k, st, node):
        ns = [lib.N(x, st) for x in a]
        ranges.append([n.e for n in ns])
        if len(ns) == 1:
            return lib.I.cell(st, Num(X.stack([X.K(float(i)) for i in range(PIXELS + 1)]), None, False))
        step = ns[2].e if len(ns) > 2 else X.ONE
        return lib.I.cell(st, Num(X.stack([X.add(ns[0].e, X.mul(X.K(float(i)), step)) for i in range(PIXELS)]), ns[0].unit, ns[0].isq))

    def linspace(lib, name, a, k, st, node):
        ns = [lib.N(x, st) for x in a] + [lib.N(k[x], st) for x in ("num",) if x in k]
        n = int(ns[2].e.args[0])
        return lib.I.cell(st, Num(X.stack([X.add(ns[0].e, X.mul(X.K(i / (n - 1.0)), X.sub(ns[1].e, ns[0].e))) for i in range(n)]), ns[0].unit, ns[0].isq))
    return {"ext:numpy.arange": arange, "ext:numpy.linspace": linspace}


def pos(I, lam):
    """position on the detector of a wavelength"""
    return X.at(M_num(I, SOL + "[x]"), lam)


def wave(I, p):
    return X.mk("interp", X.mk("curve", M_num(I, SOL + "[x]")), X.mk("curve", X.LAM), p, rows=p.rows, wl=p.wl)


def delta(I):
    return M_num(I, DET + "[delta_pix][value]")


def detector_ends(I):
    a, b = (pos(I, M_num(I, "%s[%s][value]" % (D, k))) for k in ("wl_min", "wl_max"))
    c = X.cmp("lt", b, a)
    return X.ite(c, b, a), X.ite(c, a, b)


def pixels(I):
    """positions of the centres of the pixels"""
    first, _ = detector_ends(I)
    return X.stack([X.add(first, X.mul(K(float(i)), delta(I))) for i in reversed(range(PIXELS))])


def pixel_light(I):
    """wavelength and bandwidth of the pixels"""
    p, h = pixels(I), mul(K(0.5), delta(I))
    return wave(I, p), X.fn("abs", X.sub(wave(I, X.sub(p, h)), wave(I, X.add(p, h))))


def bins(I, R):
    """centres, widths and edges of the spectral bins"""
    if R == "native":
        c, w = pixel_light(I)
        k = X.order(c)
        c, w = X.gather(c, k), X.gather(w, k)
        h = mul(K(0.5), w)
        lo, hi = X.sub(c, h), X.add(c, h)
        return c, w, X.stack([row(lo, i) for i in range(PIXELS)] + [row(hi, PIXELS - 1)])
    r = X.add(K(1), X.pw(M_num(I, D + "[targetR][value]"), K(-1)))
    e = [M_num(I, D + "[wl_min][value]")]
    for i in range(PIXELS):
        e.append(X.mul(e[-1], r))
    c = X.stack([mul(K(0.5), X.add(a, b)) for a, b in zip(e, e[1:])])
    w = X.stack([X.sub(b, a) for a, b in zip(e, e[1:])])
    return c, w, X.stack(e)


def built(I, st, b, *ks):
    for k in ks:
        b = I.lib.getitem(b, k, st, None)
    return I.num(b, st).e


def grating(ctx, R, qe, ence, options, tag, want):
    m = spectral(R, qe, ence, options)
    seen, ranges = [], []

    def f(I, st):
        s = I.region("self")
        seen.append(s)
        del ranges[:]
        I.call(I.getattr(s, "builder", st), [], {}, st)
        return I.getattr(s, "table", st)
    r = ctx.run("spectrometer with " + tag, SW, m, f, stub=dict(IMAGES, **samples(ranges)))
    if r is None:
        return
    I, st, v = r
    b = I.getattr(seen[-1], "built_instr", st)
    spec = {"strs": {D + "[PSF][format][value]": ["pixel_based", "paos", "airy"]}, "noties": True}
    want(ctx, I, st, v, b, spec, ranges, tag)


def layout(ctx, I, st, v, b, spec, ranges, tag, R):
    first, last = detector_ends(I)
    t = " (%s)" % tag
    if len(ranges) and len(ranges[0]) == 3:
        a = ranges[0]
        ctx.eq("number of pixels" + t, SW, X.div(X.sub(a[1], a[0]), a[2]), X.div(X.sub(last, first), delta(I)), spec=spec)
    if R is not None and R != "native" and len(ranges) > 1 and len(ranges[1]) == 1:
        lo, hi = (M_num(I, "%s[%s][value]" % (D, k)) for k in ("wl_min", "wl_max"))
        r = X.add(K(1), X.pw(M_num(I, D + "[targetR][value]"), K(-1)))
        n = X.fn("ceil", X.div(X.fn("log", X.div(hi, lo)), X.fn("log", r)))
        ctx.eq("number of spectral bins" + t, SW, ranges[1][0], X.add(n, K(1)), spec=spec)
    ctx.eq("centres of the pixels" + t, SW, built(I, st, b, "pix_center"), pixels(I), spec=spec)
    c, w = pixel_light(I)
    ctx.eq("wavelength of the pixels" + t, SW, built(I, st, b, "wl_pix_center"), c, spec=spec)
    ctx.eq("bandwidth of the pixels" + t, SW, built(I, st, b, "pixel_bandwidth"), w, spec=spec)
    c, w, e = bins(I, R or "native")
    h = mul(K(0.5), w)
    for col, x in (("Wavelength", c), ("Bandwidth", w), ("LeftBinEdge", X.sub(c, h)), ("RightBinEdge", X.add(c, h))):
        ctx.eqcol(I, st, v, col, x, SW, spec=spec, label=t.strip())


def photometer(ctx):
    for qe in ("value", "data"):
        for ap in (["radius"], ["EnE"], ["radius", "EnE"]):
            one_photometer(ctx, qe, ap)


def one_photometer(ctx, qe, ap):
    m = channel("Photometer", 1, qe)
    m.exact[D] = {"keys": ["wl_min", "wl_max", "Fnum_x", "Fnum_y", "detector", "aperture", ("PSF",)], "dcls": "OrderedDict"}
    m.exact[D + "[aperture]"] = {"keys": ap, "dcls": "OrderedDict"}
    for k in ap:
        q(m, "%s[aperture][%s][value]" % (D, k), isq=False)
    seen = []

    def f(I, st):
        s = I.region("self")
        seen.append(s)
        I.call(I.getattr(s, "builder", st), [], {}, st)
        return I.getattr(s, "table", st)
    tag = "QE as a %s, aperture by %s" % ({"value": "number", "data": "table"}[qe], " and ".join(ap))
    r = ctx.run("photometer with " + tag, W, m, f, stub=PSFS)
    here = seen[-1] if seen else None
    if qe == "value":
        from .sampled import sampled

        def at(I, st, v):
            x = I.getattr(seen[-1], "built_instr", st)
            for k in ("qe_data", "wl_grid", "value"):
                x = I.lib.getitem(x, k, st, None)
            return x
        sampled(ctx, tag, W, m, f, at, stub=PSFS)
    if r is None:
        return
    I, st, v = r
    b = I.getattr(here, "built_instr", st)
    wl = X.mk("stack", mid(I))
    spec = {"strs": {D + "[PSF][format][value]": ["pixel_based", "paos", "airy"]}}
    ctx.eqcol(I, st, v, "QE", X.mk("stack", quantum(I, mid(I), qe)), W, spec=spec, label="(%s)" % tag)
    fx, fy, dp, prf = psf(I, wl, 0)
    for i, k in enumerate(("PRF", "pixelRF", "extent")):
        ctx.eq("%s (%s)" % (k, tag), W, I.num(I.lib.getitem(b, k, st, None), st).e, psf(I, wl, i)[3], spec=spec)
    e = M_num(I, D + "[aperture][EnE][value]")
    area = mul(fx, wl, fy, wl, X.pw(dp, K(-2)))
    if "radius" in ap:
        rad = M_num(I, D + "[aperture][radius][value]")
        want = X.ite(fmt("pixel_based"), X.mk("stack", mul(rad, rad)), mul(rad, rad, area))
    else:
        one = X.opq("apertureRadius", prf, e, K(1), K(1), M.UM)
        many = X.opq("apertureRadius", prf, e, fx, fy, wl)
        want = X.ite(fmt("pixel_based"), X.mk("stack", mul(PI, one, one)), mul(PI, many, many, area))
    ctx.eqcol(I, st, v, "WindowSize", want, W, spec=spec, label="(%s)" % tag)
    kept = I.lib.getitem(b, "table", st, None)
    ctx.eqcol(I, st, kept, "WindowSize", want, W, spec=spec, label="of the table kept (%s)" % tag)
    ctx.eqcol(I, st, kept, "QE", X.mk("stack", quantum(I, mid(I), qe)), W, spec=spec, label="of the table kept (%s)" % tag)
    ctx.eq("window kept for diffuse light (%s)" % tag, W, I.num(I.lib.getitem(b, "window_size_px", st, None), st).e, want, spec=spec)


def photometer_layout(ctx):
    m = channel("Photometer", 1)
    m.exact[D] = {"keys": ["wl_min", "wl_max", "Fnum_x", "Fnum_y", "detector", "aperture", ("PSF",)], "dcls": "OrderedDict"}
    m.exact[D + "[aperture]"] = {"keys": ["radius"], "dcls": "OrderedDict"}
    q(m, D + "[aperture][radius][value]", isq=False)

    def f(I, st):
        s = I.region("self")
        I.call(I.getattr(s, "builder", st), [], {}, st)
        return I.getattr(s, "table", st)
    r = ctx.run("photometer", W, m, f, stub=PSFS)
    if r is None:
        return
    I, st, v = r
    lo, hi = (M_num(I, "%s[%s][value]" % (D, k)) for k in ("wl_min", "wl_max"))
    for col, x in (("Wavelength", mul(K(0.5), X.add(lo, hi))), ("Bandwidth", X.sub(hi, lo)), ("LeftBinEdge", lo), ("RightBinEdge", hi)):
        ctx.eqcol(I, st, v, col, X.mk("stack", x), W, label="of a photometer")


def refused(ctx):
    m = spectral("native", options=())
    m.exact[D + "[targetR]"] = {"keys": ["unit"], "dcls": "OrderedDict"}
    ctx.refuses("a resolution that is neither a number nor a table is refused", SW, m, lambda I, st: I.call(I.getattr(I.region("self"), "builder", st), [], {}, st),
                "the channel is built", stub=dict(IMAGES, **samples([])))
    m = spectral("native", options=())
    m.exact[D + "[wlSolution]"] = {"keys": ["value"]}
    ctx.refuses("a channel without wavelength solution is refused", SW, m, lambda I, st: I.call(I.getattr(I.region("self"), "builder", st), [], {}, st),
                "the channel is built", stub=dict(IMAGES, **samples([])))


def layouts(ctx):
    photometer_layout(ctx)
    refused(ctx)
    for R in ("native", None, "R"):
        def want(*a, R=R):
            layout(*a, R)
        grating(ctx, R, "value", False, (), "resolution " + ("not declared" if R is None else R), want)


def windows(ctx, I, st, v, b, spec, ranges, tag, R, qe, ence):
    t = " (%s)" % tag
    c, w, e = bins(I, R)
    fx, fy, dp, _ = psf(I, c, 0)
    p = pos(I, e)
    full = lambda k: X.full(M_num(I, "%s[%s][value]" % (D, k)), rows=PIXELS)
    has = lambda k: X.has(D, k)
    n = PIXELS
    wide = X.div(X.fn("abs", X.stack([X.sub(row(p, i + 1), row(p, i)) for i in range(n)])), dp)
    wide = X.ite(has("window_spectral_pixel"), full("window_spectral_pixel"), wide)
    rad = X.at(M_num(I, D + "[EncESolution][data][EE]"), c) if ence else K(1.22)
    high = mul(K(2.0), rad, fy, c, X.pw(dp, K(-1)))
    high = X.mul(high, X.ite(has("window_spatial_scale"), M_num(I, D + "[window_spatial_scale][value]"), K(1)))
    high = X.ite(has("window_spatial_pixel"), full("window_spatial_pixel"), high)
    ctx.eq("spectral width of the windows" + t, SW, built(I, st, b, "window_spectral_width"), wide, spec=spec)
    ctx.eq("spatial width of the windows" + t, SW, built(I, st, b, "window_spatial_width"), high, spec=spec)
    ctx.eq("size of the windows" + t, SW, built(I, st, b, "window_size_px"), X.mul(wide, high), spec=spec)
    ctx.eqcol(I, st, v, "WindowSize", X.mul(wide, high), SW, spec=spec, label=t.strip())
    ctx.eqcol(I, st, v, "QE", X.stack([quantum(I, row(c, i), qe) for i in range(n)]), SW, spec=spec, label=t.strip())
    gain(ctx, I, st, b, spec, t)


def gain(ctx, I, st, b, spec, t):
    """fraction of the light of a pixel column on its brightest pixel"""
    c, _ = pixel_light(I)
    lo, hi = X.red("min", c, "row"), X.red("max", c, "row")
    x, g = [], []
    for k in range(10):
        wl = X.add(lo, X.mul(K(k / 9.0), X.sub(hi, lo)))
        prf, pix = psf(I, wl, 0, True)[3], psf(I, wl, 1, True)[3]
        s = X.fn("exp", X.neg(X.pw(mul(K(2.0), PI, M_num(I, D + "[WFErms][value]"), X.pw(wl, K(-1))), K(2))))
        y = X.div(X.red("max", X.red("sum", prf, "row"), "wl"), X.red("max", X.red("sum", pix, "row"), "wl"))
        x.append(wl)
        g.append(X.mul(y, X.ite(X.has(D, "WFErms"), s, K(1))))
    ctx.eq("wavelengths of the gain" + t, SW, X.mul(built(I, st, b, "gain_prf_data", "wl_grid", "value"), M.UM), X.stack(x), spec=spec)
    ctx.eq("gain of the point spread function" + t, SW, built(I, st, b, "gain_prf_data", "data", "value"), X.stack(g), spec=spec)


def spectrometer(ctx):
    for R, qe, ence in (("native", "value", False), ("R", "data", False), ("R", "value", True)):
        def want(*a, R=R, qe=qe, ence=ence):
            windows(*a, R, qe, ence)
        tag = "%s resolution, QE as a %s%s" % ({"native": "native", "R": "chosen"}[R], {"value": "number", "data": "table"}[qe], ", encircled energy" if ence else "")
        grating(ctx, R, qe, ence, OPTIONS, tag, want)


# ---------------------------------------------------------------- bins of a tabulated resolving power
TABULATED = '''
import numpy as np
import astropy.units as u
from astropy.table import QTable
from exorad.models.instruments.spectrometer import Spectrometer


class Given:
    pass


G = Given()


def read(path, *a, **k):
    if path != "/w/resolution.csv":
        raise FileNotFoundError(path)
    sep = k["sep"] if "sep" in k else (k["delimiter"] if "delimiter" in k else (a[0] if a else ","))
    if k.get("skiprows") or k.get("header", 0) not in (0, "infer"):
        return {"0.5": [1.0, 4.0]}
    if sep not in ("\\t", "\\\\s+", None) and not k.get("delim_whitespace"):
        return {"W R": [0.5, 1.0, 4.0]}
    return {"W": np.array([0.5, 1.0, 4.0]), "R": np.array([G.R, G.R, G.R + 3.0 * G.slope])}


class Curve:
    def __init__(self, x, y, *a, **k):
        self.first = y[1] - x[1] * (y[2] - y[1]) / (x[2] - x[1])
        self.slope = (y[2] - y[1]) / (x[2] - x[1])

    def __call__(self, w):
        return self.first + self.slope * w


class Channel(Spectrometer):
    def __init__(self, lo, hi):
        self.name = "spec"
        self.table = QTable()
        self.built_instr = {}
        self.description = {"wl_min": {"value": lo}, "wl_max": {"value": hi}, "targetR": {"data": {"value": "/w/resolution.csv"}}}


def bins(lo, hi, R, slope, nm):
    G.R = R
    G.slope = slope
    c = Channel((lo * u.um).to(u.nm) if nm else lo * u.um, hi * u.um)
    c._wavelength_table()
    t = c.table
    out = [1.0 * len(t["Wavelength"])]
    for col in ("Wavelength", "Bandwidth", "LeftBinEdge", "RightBinEdge"):
        for x in t[col]:
            out.append(x.to(u.um).value)
    return out
'''


def edges_of(lo, hi, res):
    """edges that grow by the resolving power at each of them, to four decimals, up to the upper limit: a last bin that would be mostly outside ends at the limit with the one before"""
    e = [lo]
    while e[-1] < hi:
        e.append(round(e[-1] + e[-1] / res(e[-1]), 4))
    if hi - e[-2] < (e[-2] - e[-3]) / 2.0:
        e[-2] = hi
        e = e[:-1]
    return e


def tabulated(ctx):
    from .lists import compare
    repo = ctx.repo.probed(TABULATED, ext={"pandas.read_csv": "read", "scipy.interpolate.interp1d": "Curve"})
    for lo, hi, R, slope, nm in ((1.0, 2.0, 4.0, 0.0, False), (1.0, 2.0, 4.0, 0.0, True), (1.0, 2.0, 3.0, 0.5, False), (1.1, 1.75, 6.0, 0.0, False), (1.0, 1.6, 4.0, 0.0, False), (1.0, 2.11, 4.0, 0.0, False), (1.0, 2.18, 4.0, 0.0, False)):
        e = edges_of(lo, hi, lambda w: R + slope * (w - 1.0))
        n = len(e) - 1
        want = [float(n)] + [0.5 * (e[i] + e[i + 1]) for i in range(n)] + [e[i + 1] - e[i] for i in range(n)] + e[:-1] + e[1:]
        t = "bins of a tabulated resolving power, %s to %s um%s, R=%s%+g" % (lo, hi, " (declared in nm)" if nm else "", R, slope)

        def f(I, st):
            return I.call(I.repo_fn("exorad._probe", "bins"), [Num(K(v), isq=False) for v in (lo, hi, R, slope)] + [Num(X.TRUE if nm else X.FALSE)], {}, st)
        compare(ctx, ctx.run(t, SW, M.Model(1), f, repo=repo), t, SW, [K(v) for v in want], counted=True)
