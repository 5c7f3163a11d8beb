"""C39: the image of a star on the pixels."""
import math
from .. import expr as X
from .. import model as M
from ..interp import Num
from .lists import compare
from .stellar import mul, U

K = X.K
W = "exorad/utils/exolib.py "

PROBE = '''
import astropy.units as u
import numpy as np
from collections import OrderedDict
from exorad.utils import exolib as L


class Line:
    """one line of cells of a grid"""
    def __init__(self, v):
        self.v = v

    def __mul__(self, o):
        return Line([x * o for x in self.v])

    def __rmul__(self, o):
        return self * o


class Grid:
    """a small matrix"""
    def __init__(self, rows):
        self.rows = rows
        self.shape = (len(rows), len(rows[0]))

    def __mul__(self, o):
        return Grid([[x * o for x in r] for r in self.rows])

    def __rmul__(self, o):
        return self * o

    def cells(self, k):
        i, j = k
        a = range(len(self.rows)) if isinstance(i, slice) else [range(len(self.rows))[i]]
        b = range(len(self.rows[0])) if isinstance(j, slice) else [range(len(self.rows[0]))[j]]
        return a, b

    def __getitem__(self, k):
        a, b = self.cells(k)
        return Line([self.rows[i][j] for i in a for j in b])

    def __setitem__(self, k, v):
        a, b = self.cells(k)
        n = 0
        for i in a:
            for j in b:
                self.rows[i][j] = v.v[n] if isinstance(v, Line) else v
                n = n + 1


def ones(shape, *a, **k):
    r, c = shape
    return Grid([[1.0] * c for i in range(r)])


class Conv:
    def __init__(self, a, b, mode):
        self.a = a
        self.b = b
        self.mode = mode


def convolve2d(a, b, mode="full", **k):
    return Conv(a, b, mode)


class Img:
    """an image of two pixels that passes for one of 256 by 256"""
    shape = (256, 256)

    def __init__(self, v):
        self.v = v

    def with_(self, o, f):
        return Img([f(a, b) for a, b in zip(self.v, o.v)]) if isinstance(o, Img) else Img([f(a, o) for a in self.v])

    def __add__(self, o):
        return self.with_(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self.with_(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self.with_(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self.with_(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.with_(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self.with_(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self.with_(o, lambda a, b: b / a)

    def __pow__(self, n):
        return Img([a ** n for a in self.v])

    def sum(self, *a):
        return self.v[0] + self.v[1]


class Axis:
    def __init__(self, lo, hi, n=50):
        self.lo = lo
        self.step = (hi - lo) / (n - 1)

    def __getitem__(self, i):
        return self.lo + i * self.step


class Sky:
    x = None
    y = None
    names = []
    h5 = {}
    opened = ""
    disk = {}
    there = True


S = Sky()


def meshgrid(a, b):
    return Img(S.x), Img(S.y)


def root(x):
    return Img([a ** 0.5 for a in x.v]) if isinstance(x, Img) else x ** 0.5


def size(x):
    return Img([abs(a) for a in x.v]) if isinstance(x, Img) else np.fabs(x)


def searchsorted(a, v, *x, **k):
    return len([b for b in a if b < one(v)])


def square(x):
    return x ** 2


def hypot(a, b):
    return root(a ** 2 + b ** 2)


def bessel(x):
    return Img([np.exp(-a) for a in x.v])


def other(x):
    return Img([np.exp(-2.0 * a) for a in x.v])


class Hdu:
    def __init__(self, name):
        wl, ima, n = S.disk[name]
        self.data = ima
        self.header = {"WAVELEN": wl, "CDELT1": 0.5, "CDELT2": 0.5, "CRPIX1": 11.0 + n, "CRPIX2": 11.0 + n, "NAXIS1": 30.0 + n, "NAXIS2": 30.0 + n}


class Fits:
    def __init__(self, name, *a, **k):
        self.all = [Hdu(name)]

    def __getitem__(self, i):
        return self.all[i]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def same(p):
    return p


def exists(p):
    return p in S.disk or p == "dir/"


def isdir(p):
    return p == "dir/"


def glob(p):
    return ["dir/c.fits", "dir/a.fits", "dir/b.fits"] if p in ("dir/*.fits", "dir//*.fits") else []


def order(x, *a, **k):
    return sorted(x)


def corners(r):
    k = r.b.rows if isinstance(r, Conv) else r
    return [1.0 * len(k), 1.0 * len(k[0]), k[0][0], k[0][1], k[0][-1], k[1][0], k[1][-1], k[-1][0], k[-1][1], k[-1][-1]] + inside(k)


def inside(k):
    n = len(k)
    m = len(k[0])
    a = 0.0
    for i in range(1, n - 1):
        for j in range(1, m - 1):
            a = a + k[i][j]
    return [a]


def whole(k):
    a = 0.0
    for r in k:
        for x in r:
            a = a + x
    return a


def wide(e):
    return [one(x) for x in e]


def one(x):
    return x[0] if hasattr(x, "shape") and len(x.shape) else x


def files(p, q, r):
    S.disk = {"dir/a.fits": (1.0, p, 0.0), "dir/b.fits": (2.0, q, 1.0), "dir/c.fits": (4.0, r, 2.0), "one.fits": (7.0, q, 0.0)}


def seen(fx, fy, wl, d, name, p, q, r, x1, x2, y1, y2):
    files(p, q, r)
    S.x, S.y = [x1, x2], [y1, y2]
    im, kernel, extent = L.binnedPSF(fx, fy, wl, d, filename=name)
    return [im.a, im.mode == "same", im.b is kernel, whole(kernel.rows)] + corners(kernel.rows) + wide(extent)


def airy(fx, fy, wl, d, name, p, q, r, x1, x2, y1, y2):
    files(p, q, r)
    S.x, S.y = [x1, x2], [y1, y2]
    im, kernel, extent = L.binnedPSF(fx, fy, wl, d, filename=name)
    return im.a.v + [im.mode == "same", im.b is kernel, whole(kernel.rows)] + corners(kernel.rows) + wide(extent)


def pixels(wl, d, name, p, q, r):
    files(p, q, r)
    im, kernel, extent = L.pixel_based_psf(wl, d, name)
    return [im, kernel[0], 1.0 * len(kernel)] + [extent[0][0], extent[1][0], extent[2][0], extent[3][0]]


class H5:
    def __init__(self, name, mode="r", **k):
        if name not in S.h5:
            raise OSError(2, "no such file")
        self.all = S.h5[name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(self.all.keys()) + ["info"]

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return k in self.keys()

    def __getitem__(self, k):
        return self.all[k]


class Slope:
    """a line through two points"""
    def __init__(self, x, y, kind="linear", fill_value=np.nan, axis=-1, bounds_error=None, **k):
        self.x, self.y, self.out = x, y, fill_value
        if kind != "linear" or len(x) != 2:
            raise ValueError("kind of interpolation")

    def __call__(self, at):
        x0, x1 = self.x
        y0, y1 = self.y
        if not (min(x0, x1) <= at <= max(x0, x1)) and self.out != "extrapolate":
            raise ValueError("outside")
        return y0 + (y1 - y0) * ((at - x0) / (x1 - x0))


class Curve:
    """the share of light within a radius"""
    def __init__(self, x, y, **k):
        self.x, self.y = list(x), list(y)

    def __call__(self, at):
        for i in range(len(self.x) - 1):
            if self.x[i] <= at and at <= self.x[i + 1]:
                return self.y[i] + (self.y[i + 1] - self.y[i]) * ((at - self.x[i]) / (self.x[i + 1] - self.x[i]))
        raise ValueError("outside")


def group(ima, s):
    last = {"amplitude": ima, "dx": 1e-6 * s, "dy": 2e-6 * s, "extent": np.array([-1e-6, 3e-6, -2e-6, 5e-6]) * s, "fratio": 4.0 * s}
    first = {"amplitude": 9.0 * ima, "dx": 7e-6 * s, "dy": 8e-6 * s, "extent": np.array([-7e-6, 7e-6, -8e-6, 9e-6]) * s, "fratio": 5.0 * s}
    return OrderedDict([("S01", first), ("S02", last)])


def paos(wl, d, name, p, q, r):
    S.h5 = {"p.h5": OrderedDict([("4.5", group(r, 4.5)), ("1.5", group(p, 1.5)), ("2.25", group(q, 2.25))]), "one.h5": OrderedDict([("2.25", group(q, 2.25))])}
    im, kernel, extent = L.paosPSF(wl=wl, delta_pix=d, filename=name)
    return [im.a, im.mode == "same", im.b is kernel, whole(kernel.rows)] + corners(kernel.rows) + wide(extent)


class Ellipse:
    def __init__(self, positions, a=None, b=None, theta=0.0, **k):
        self.at, self.a, self.b = positions, a, b


class Column:
    def __init__(self, v):
        self.data = [v]

    def __getitem__(self, i):
        return self.data[i]


class Frame:
    shape = (40, 60)

    def sum(self):
        return 50.0


def photometry(ima, aper, **k):
    x, y = aper.at
    assert x == 30 and y == 20
    return {"aperture_sum": Column(2.5 * aper.a + 0.5 * aper.b)}


def within(r, fx, fy, wl):
    return [L.encircled_energy(r, Frame(), fx, fy, wl)]


def radius(eec, fx, fy, wl):
    return [L.find_aperture_radius(Frame(), eec, fx, fy, wl)]
'''

EXT = {"numpy.ones": "ones", "scipy.signal.convolve2d": "convolve2d", "scipy.signal.convolve": "convolve2d", "numpy.linspace": "Axis", "numpy.meshgrid": "meshgrid", "numpy.sqrt": "root",
       "numpy.square": "square", "numpy.abs": "size", "numpy.absolute": "size", "numpy.searchsorted": "searchsorted", "numpy.hypot": "hypot", "scipy.special.j1": "bessel", "scipy.special.j0": "other", "astropy.io.fits.open": "Fits", "os.path.expanduser": "same",
       "os.path.exists": "exists", "os.path.isdir": "isdir", "glob.glob": "glob", "numpy.sort": "order", "h5py.File": "H5", "scipy.interpolate.interp1d": "Slope",
       "photutils.aperture.EllipticalAperture": "Ellipse", "photutils.aperture.aperture_photometry": "photometry"}
NUMS = ("p", "q", "r", "x1", "x2", "y1", "y2")


def model():
    m = M.Model(1)
    for v in NUMS:
        m.exact[v] = M.n(v, isq=False)
    return m


def program(ctx, curve=False):
    key = "_psf%d" % curve
    if getattr(ctx, key, None) is None:
        setattr(ctx, key, ctx.repo.probed(PROBE, ext=dict(EXT, **{"scipy.interpolate.interp1d": "Curve"}) if curve else EXT))
    return getattr(ctx, key)


def read(lib, fn, args, kw, st, node):
    return kw["input_group"] if "input_group" in kw else args[0]


def run(ctx, fn, args, tag, want, where, curve=False):
    m = model()

    def f(I, st):
        for n in ("binnedPSF", "paosPSF", "pixel_based_psf", "find_aperture_radius"):
            I.stubs.pop(n, None)
        return I.call(I.repo_fn("exorad._probe", fn), [I.region(a) if a in m.exact else a if isinstance(a, str) else a for a in args], {}, st)
    compare(ctx, ctx.run(tag, W + where, m, f, repo=program(ctx, curve), total={}, stub={"load": read}), tag, W + where, want)


def quantity(v, unit, many):
    e = mul(K(v), U(unit))
    return Num(X.stack([e]) if many else e, U(unit), True)


def images(ctx):
    for tag, fx, fy, wl, d, many in (("wide pixels", 10.0, 6.0, 1.3, 18.0, True), ("wide pixels, plain wavelength", 10.0, 6.0, 1.3, 18.0, False), ("narrow pixels", 20.0, 30.0, 3.1, 10.0, True),
                                     ("wider pixels", 5.0, 10.0, 2.1, 30.0, True)):
        a = [Num(K(fx)), Num(K(fy)), quantity(wl, "um", many), quantity(d, "um", False)]
        for src, name, im, n in (("file", "one.fits", "q", 0.0), ("nearest of a directory", "dir/", "p" if wl < 1.5 else "q" if wl < 3 else "r", 0.0 if wl < 1.5 else 1.0 if wl < 3 else 2.0)):
            run(ctx, "seen", a + [name] + list(NUMS), "%s, %s" % (src, tag), [X.var(im)] + law(fx, fy, wl, d, 0.5) + edges(fx, fy, wl, n), "binnedPSF")
        pos = [X.var(v) for v in ("x1", "x2", "y1", "y2")]
        xs = ((pos[0], pos[2]), (pos[1], pos[3]))
        f = []
        for x, y in xs:
            r = X.add(mul(K(math.pi), X.pw(X.add(X.mul(x, x), X.mul(y, y)), K(0.5))), K(1e-10))
            f.append(X.pw(X.div(X.mul(K(2.0), X.fn("exp", X.mul(K(-1.0), r))), r), K(2.0)))
        step = 8.0 / 255.0
        want = [X.div(v, X.add(f[0], f[1])) for v in f] + law(fx, fy, wl, d, step)
        want += [mul(K(s * 128.0 * q * wl * step), U("um")) for q in (fx, fy) for s in (-1.0, 1.0)]
        for src, name in (("no pattern declared", None), ("pattern missing", "gone.fits")):
            run(ctx, "airy", a + [name or Num(X.K(0))] + list(NUMS), "%s, %s" % (src, tag), want, "binnedPSF")
    for tag, wl, n in (("short", 0.3, 0), ("middle", 1.6, 1), ("long", 9.0, 2)):
        for many in (True, False):
            for name, k in (("dir/", n), ("one.fits", 0)):
                t = "pixels' own pattern, %s%s, %s" % (tag, " (plain)" if not many else "", name)
                h = mul(K(0.5 * (30.0 + k) * 18.0), U("um"))
                run(ctx, "pixels", [quantity(wl, "um", many), quantity(18.0, "um", False), name, "p", "q", "r"], t,
                    [X.var("pqr"[n] if name == "dir/" else "q"), K(1.0), K(1.0)] + [X.mul(K(s), h) for s in (-1.0, 1.0)] * 2, "pixel_based_psf")
    sq = {k: X.pw(X.var(k), K(2.0)) for k in "pqr"}
    for wl, a, b, x, y in ((2.25, "q", "q", 2.25, 2.25), (4.5, "r", "r", 4.5, 4.5), (1.65, "p", "q", 1.5, 2.25), (2.15, "p", "q", 1.5, 2.25), (2.55, "q", "r", 2.25, 4.5), (4.15, "q", "r", 2.25, 4.5), (0.55, "p", "q", 1.5, 2.25), (6.1, "q", "r", 2.25, 4.5)):
        f = (wl - x) / (y - x) if y > x else 0.0
        im = X.add(sq[a], X.mul(K(f), X.sub(sq[b], sq[a]))) if f else sq[a]
        lim = [mul(K(v * wl), U("um")) for v in (-1.0, 3.0, -2.0, 5.0)]
        run(ctx, "paos", [quantity(wl, "um", True), quantity(17.3, "um", False), "p.h5", "p", "q", "r"], "simulated pattern at %s" % wl, [im] + law(1.0, 2.0, 1.0, 17.3, wl) + lim, "paosPSF")
    for tag, name, wl, unit in (("single pattern, shorter wavelength", "one.h5", 1.55, "um"), ("single pattern, longer wavelength", "one.h5", 2.95, "um"), ("missing file of patterns", "none.h5", 2.25, "um")):
        def f(I, st, name=name, wl=wl, unit=unit):
            I.stubs.pop("paosPSF", None)
            return I.call(I.repo_fn("exorad._probe", "paos"), [quantity(wl, unit, True), quantity(17.3, "um", False), name, I.region("p"), I.region("q"), I.region("r")], {}, st)
        ctx.refuses(tag + " refused", W + "paosPSF", model(), f, "accepted", repo=program(ctx), stub={"load": read})


def aperture(ctx):
    for tag, fx, fy, wl in (("round", 2.0, 2.0, 1.5), ("oval", 2.0, 5.0, 0.8)):
        for many in (True, False):
            lab = tag + ("" if many else " (plain)")
            a = [Num(K(fx)), Num(K(fy)), quantity(wl, "um", many)]
            per = wl * (2.5 * fx + 0.5 * fy) / 50.0
            run(ctx, "within", [Num(K(3.0))] + a, "light within a radius, " + lab, [K(3.0 * per)], "encircled_energy")
            for e in (0.4, 0.838, 0.9):
                run(ctx, "radius", [Num(K(e))] + a, "radius of %s of the light, %s" % (e, lab), [K(e / per)], "find_aperture_radius", curve=True)


def law(fx, fy, wl, d, step):
    kx, ky = d / (fx * wl * step), d / (fy * wl * step)
    ix, iy = int(kx + 1e-9), int(ky + 1e-9)
    gx, gy = kx - ix, ky - iy
    c, ex, ey = 0.25 * gx * gy, 0.5 * gx, 0.5 * gy
    out = [iy + 2, ix + 2, c, ey if ix else c, c, ex if iy else c, ex if iy else c, c, ey if ix else c, c, ix * iy]
    return [X.TRUE, X.TRUE, K(kx * ky)] + [K(float(v)) for v in out]


def edges(fx, fy, wl, n):
    lo, hi = -(10.0 + n), 20.0
    return [mul(K(s * f * wl * 0.5), U("um")) for f in (fx, fy) for s in (lo, hi)]
