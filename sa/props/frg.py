"""C30: the zodiacal model; C34: the foregrounds a payload lists."""
from .. import expr as X
from .. import model as M
from ..interp import ClsV, Tup, Diverge
from ..repo import Broken
from .stellar import mul, U
from .noise import task

K = X.K
D = "description"
ZW = "exorad/models/foregrounds/zodiacalForeground.py ZodiacalFrg"
FW = "exorad/tasks/foregroundHandler.py EstimateForegrounds"


def zodi_rules(m, d):
    m.exact[d] = {"keys": ["value", ("zodiacalMap",), ("zodiacFactor",), ("custom_map_file",)], "dcls": "dict"}
    for k in ("zodiacalMap", "zodiacFactor", "custom_map_file"):
        m.exact["%s[%s]" % (d, k)] = {"keys": ["value"]}
    m.exact[d + "[zodiacFactor][value]"] = M.n(d + "[zodiacFactor][value]", isq=False)
    m.exact["zmap"] = {"table": ["ra_icrs", "dec_icrs", "zodi_coeff"]}
    for c in ("ra_icrs", "dec_icrs", "zodi_coeff"):
        m.exact["zmap[%s]" % c] = M.n("zmap[%s]" % c, 4, isq=False, kind=kind(c))
    return m


def kind(p):
    k = p.rsplit(".", 1)[-1].replace("zmap[", "")
    return {"ra": "longitude", "dec": "latitude"}.get(k.split("_")[0].rstrip("]"), "num")


def degrees(p):
    from ..interp import Num
    return {"num": Num(mul(X.var(p, kind=kind(p)), U("deg")), U("deg"), True)}


def stub_map(fail):
    def f(lib, name, a, k, st, node):
        if fail:
            lib.I.pend(fail, st, node)
            raise Diverge()
        return lib.I.region("zmap")
    return {"ext:astropy.io.misc.hdf5.read_table_hdf5": f}


def zodi_law(factor, lam=X.LAM):
    """Glasse et al. 2010"""
    u = U("W m-2 um-1 sr-1")
    bb = lambda T: mul(X.opq("planck", lam, mul(K(T), U("K"))), u)
    return mul(factor, X.add(mul(K(3.5e-14), bb(5500.0)), mul(K(3.58e-8), bb(270.0))))


def factor(d):
    return X.ite(X.has(d, "zodiacFactor"), X.var(d + "[zodiacFactor][value]"), X.ZERO)


def var(p, rows=None):
    return X.var(p, rows=rows, kind=kind(p))


def nearest(ra, dec):
    """the entry of the map that makes the smallest angle with the direction"""
    rad = lambda e: mul(e, K(3.141592653589793 / 180))
    v = lambda c: rad(var("zmap[%s]" % c, 4))
    l, b, f = rad(var(ra)), rad(var(dec)), X.fn
    cosine = X.add(mul(f("sin", v("dec_icrs")), f("sin", b)), mul(f("cos", v("dec_icrs")), f("cos", b), f("cos", X.sub(v("ra_icrs"), l))))
    return X.mk("pickrow", X.var("zmap[zodi_coeff]", rows=4), X.mk("argext", "argmax", cosine))


def files_exist(e):
    """cases in which the map file is where it is expected"""
    return {l.args[0]: True for l in X.leaves(e) if l.op == "bvar" and l.args[0].startswith("os.isfile")}


def files_spec(e):
    return {"noties": True, "force": files_exist(e)}


def zodiacal(ctx):
    want_map = X.AND(X.has(D, "zodiacalMap"), X.bvar("truthy:%s[zodiacalMap][value]" % D))
    for tag, coords, fail in (("without coordinates", False, False), ("map read", True, False), ("map unreadable", True, "OSError"), ("map without the table", True, "KeyError")):
        m = zodi_rules(M.Model(1), D)
        m.exact["wl"] = M.lamq("wl")
        m.exact["ra"], m.exact["dec"] = degrees("ra"), degrees("dec")

        def f(I, st):
            c = I.repo.find_class("ZodiacalFrg")
            if c is None:
                raise Broken("class ZodiacalFrg is gone")
            xy = Tup([I.region("ra"), I.region("dec")]) if coords else None
            z = I.call(ClsV(c), [], {"wl": I.region("wl"), "description": I.region(D), "coordinates": xy}, st)
            return I.getattr(I.getattr(z, "radiance", st), "data", st)
        r = ctx.run("zodiacal radiance, " + tag, ZW, m, f, stub=stub_map(fail), total=files_spec)
        if r is None:
            continue
        I, st, v = r
        a = factor(D)
        if coords and not fail:
            a = X.ite(want_map, nearest("ra", "dec"), a)
        got = I.num(v, st)
        ctx.eq("zodiacal radiance, " + tag, ZW, got, zodi_law(a), {"noties": True, "force": files_exist(got.e) if got is not None else {}})


def frg_rules(m, p, name):
    m.exact[p] = {"keys": ["value", "data"], "dcls": "dict"}
    m.exact[p + "[value]"] = {"str": name}
    m.exact[p + "[data]"] = {"table": ["Wavelength", "Radiance", "Transmission"]}
    from ..interp import Num
    q = p + "[data][%s]"
    m.exact[q % "Wavelength"] = {"num": Num(X.LAM, X.uof(q % "Wavelength"), True, name)}
    m.exact[q % "Radiance"] = M.n(q % "Radiance", wl=True, unit="W m-2 um-1 sr-1", grid=name)
    m.exact[q % "Transmission"] = M.n(q % "Transmission", wl=True, unit=X.ONE, grid=name)


def foregrounds(ctx):
    P = "foregrounds"
    for tag, names in (("sky in front of the zodiacal light", ["skyA", "zodiacal", "skyB"]), ("zodiacal light first", ["zodiacal", "skyA"]), ("two skies", ["skyB", "skyA"]),
                       ("zodiacal light alone", "zodiacal"), ("one sky alone", "skyA"),
                       ("skies named after the zodiacal light", ["zodiacal2", "zodiacal", "zodiac"]), ("a sky named after the zodiacal light", "my zodiacal"),
                       ("again, zodiacal light first", ["zodiacal", "skyA", "skyB"]), ("again, sky in front", ["skyA", "zodiacal"]),
                       ("after other foregrounds", ["skyB", "skyA"]), ("after others, zodiacal light alone", "zodiacal")):
        m = M.Model(1)
        single = isinstance(names, str)
        ns = [names] if single else names
        if not single:
            m.exact[P] = {"keys": names, "dcls": "OrderedDict"}
        for n in ns:
            p = P if single else "%s[%s]" % (P, n)
            if n == "zodiacal":
                zodi_rules(m, p)
                m.exact[p + "[value]"] = {"str": "zodiacal"}
            else:
                frg_rules(m, p, n)
        if tag.startswith("after"):
            m.exact["before"] = {"keys": ["zodiacal", "gone", "skyA"], "dcls": "OrderedDict"}
            zodi_rules(m, "before[zodiacal]")
            m.exact["before[zodiacal][value]"] = {"str": "zodiacal"}
            for n in ("gone", "skyA"):
                frg_rules(m, "before[%s]" % n, n)
        m.exact["target"] = {"cls": "Target", "has": {"foreground": False, "skyTransmission": None}}
        m.exact["target.foreground"] = {"has": False}
        m.exact["target.star"] = {"cls": "Star"}
        m.exact["target.star.ra"], m.exact["target.star.dec"] = degrees("target.star.ra"), degrees("target.star.dec")
        for w in ("wl_min", "wl_max"):
            m.exact[w] = M.n(w, kind="lam_lo" if w == "wl_min" else "lam_hi")

        def f(I, st):
            given = {"foregrounds": I.region(P), "target": I.region("target"), "wl_range": Tup([I.region("wl_min"), I.region("wl_max")])}
            if tag.startswith("again"):
                I.call(task(I, "EstimateForegrounds", st), [], dict(given), st)
            if tag.startswith("after"):
                I.call(task(I, "EstimateForegrounds", st), [], dict(given, foregrounds=I.region("before")), st)
            return I.call(task(I, "EstimateForegrounds", st), [], given, st)
        r = ctx.run("foregrounds, " + tag, FW, m, f, stub=stub_map(False), total=files_spec)
        if tag in ("zodiacal light first", "one sky alone", "zodiacal light alone"):
            from .sampled import sampled
            for k in ["zodi" if n == "zodiacal" else n for n in ns]:
                sampled(ctx, "%s, %s" % (k, tag), FW, m, f, lambda I, st, v: I.getattr(I.lib.getitem(I.getattr(v, "foreground", st), k, st, None), "wl_grid", st), stub=stub_map(False), total=files_spec)
        if r is None:
            continue
        I, st, v = r
        fg = I.getattr(v, "foreground", st)
        ents = I.lib.dict_entries(fg, st)
        if ents is None:
            ctx.res.und("foregrounds, " + tag, FW, "not a dictionary")
            continue
        got = [k for k, c in ents]
        want = ["zodi" if n == "zodiacal" else n for n in ns]
        ctx.res.check(got == want, "foregrounds in the order of the payload, " + tag, FW, "%s where %s is required" % (got, want))
        total = X.ONE
        grid = None
        for n, k in zip(ns, want):
            if k not in got:
                continue
            x = I.lib.getitem(fg, k, st, None)
            lam = I.num(I.getattr(x, "wl_grid", st), st)
            data = I.num(I.getattr(x, "data", st), st)
            if lam is None or data is None:
                ctx.res.und("radiance of %s, %s" % (n, tag), FW, "no value")
                continue
            grid = lam.e
            gb = X.gridbase(grid)
            if gb is not None:
                for e, w in zip(X.gridends(gb[0]), ("wl_min", "wl_max")):
                    ctx.eq("range of %s, %s: %s" % (n, tag, w), FW, X.mul(e, gb[1]), m.exact[w]["num"].e)
            p = P if single else "%s[%s]" % (P, n)
            if n == "zodiacal":
                mp = X.AND(X.has(p, "zodiacalMap"), X.bvar("truthy:%s[zodiacalMap][value]" % p))
                co = X.has("target.star", ".ra")
                want_r = zodi_law(X.ite(X.AND(mp, co), nearest("target.star.ra", "target.star.dec"), factor(p)), grid)
                ctx.eq("radiance of %s, %s" % (n, tag), FW, data, want_r, {"noties": True, "force": files_exist(data.e)})
                continue
            q = p + "[data][%s]"
            there = X.inr(grid, "'%s'" % n)
            ctx.eq("radiance of %s, %s" % (n, tag), FW, data, X.ite(there, X.at(X.var(q % "Radiance", wl=True), grid), X.ZERO))
            t = X.ite(there, X.at(X.var(q % "Transmission", wl=True), grid), X.ONE)
            ctx.eq("transmission of %s, %s" % (n, tag), FW, I.num(I.getattr(x, "transmission", st), st), t)
            total = X.mul(total, t)
        skies = [n for n in ns if n != "zodiacal"]
        h = I.hasattr(v, "skyTransmission", st)
        if skies and grid is not None:
            ctx.eq("the target has a sky transmission, " + tag, FW, h, X.TRUE)
            sky = I.getattr(v, "skyTransmission", st)
            ctx.eq("transmission of the sky, " + tag, FW, I.num(I.getattr(sky, "data", st), st), total)
        else:
            ctx.eq("no sky transmission, " + tag, FW, h, X.FALSE)


# ---------------------------------------------------------------- which map is read
MAPS = '''
import numpy as np
import astropy.units as u
from astropy.table import Table
from exorad.models.foregrounds.zodiacalForeground import ZodiacalFrg

OWN = "/w/sky.hdf5"
TREE = {"/pkg": ["exorad"], "/pkg/exorad": DATA, "/pkg/exorad/data": [], "/pkg/exorad/models": ["foregrounds", "optics", "instruments"], "/pkg/exorad/models/foregrounds": []}


class Disk:
    own = False
    ours = True
    got = None


D = Disk()


def name(p):
    if isinstance(p, Path):
        return p.text
    if isinstance(p, str):
        return p
    raise TypeError("expected str, bytes or os.PathLike object")


def dirname(p):
    return name(p).rsplit("/", 1)[0]


def basename(p):
    return name(p).rsplit("/", 1)[1]


def same(p):
    return name(p)


def join(p, *more):
    t = name(p)
    for q in more:
        q = name(q)
        t = q if q[:1] == "/" else t + "/" + q
    return t


def isfile(p):
    p = name(p)
    if p == "/pkg/exorad/data/Zodi_map.hdf5":
        return D.ours
    if p == OWN:
        return D.own
    return False


def isdir(p):
    return name(p) in TREE


def exists(p):
    return isfile(p) or isdir(p)


def listdir(p):
    return [x for x in TREE[name(p)]]


class Path:
    def __init__(self, p, *more):
        self.text = join(p, *more)

    @property
    def parent(self):
        return Path(dirname(self.text))

    @property
    def parents(self):
        out = []
        p = self
        while p.text.count("/") > 1:
            p = p.parent
            out.append(p)
        return out

    @property
    def name(self):
        return basename(self.text)

    @property
    def stem(self):
        return basename(self.text).split(".")[0]

    def absolute(self):
        return self

    def resolve(self, *a, **k):
        return self

    def as_posix(self):
        return self.text

    def is_dir(self):
        return isdir(self)

    def is_file(self):
        return isfile(self)

    def exists(self):
        return exists(self)

    def iterdir(self):
        return [Path(self.text + "/" + x) for x in TREE[self.text]]

    def joinpath(self, *q):
        return Path(join(self.text, *q))

    def __truediv__(self, q):
        return Path(join(self.text, q))

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text


def read(p, *a, **k):
    if not isfile(p):
        raise FileNotFoundError(p)
    c = D.mine if name(p) == OWN else D.packaged
    t = Table()
    t["ra_icrs"] = np.array([10.0])
    t["dec_icrs"] = np.array([20.0])
    t["zodi_coeff"] = np.array([c])
    return t


class Factor(ZodiacalFrg):
    def model(self, A):
        return A


def apart(*a):
    return np.array([1.0])


def used(own, ours, packaged, mine, factor, asked):
    D.own = own
    D.ours = ours
    D.packaged = packaged
    D.mine = mine
    d = {"zodiacalMap": {"value": True}, "zodiacFactor": {"value": factor}}
    if asked:
        d["custom_map_file"] = {"value": OWN}
    z = Factor(np.array([1.0, 2.0]) * u.um, d, (10.0 * u.deg, 20.0 * u.deg))
    return [z.radiance]
'''
MAPEXT = {"os.path.exists": "exists", "os.path.isfile": "isfile", "os.path.isdir": "isdir", "os.listdir": "listdir", "os.path.join": "join", "os.path.dirname": "dirname",
          "os.path.basename": "basename", "os.path.abspath": "same", "os.path.realpath": "same", "os.path.normpath": "same", "os.fspath": "name", "os.PathLike": "Path", "pathlib.Path": "Path",
          "astropy.io.misc.hdf5.read_table_hdf5": "read", "astropy.coordinates.angular_separation": "apart"}


def yes(v):
    from ..interp import Num
    return Num(X.TRUE if v else X.FALSE)


def mapfile(ctx):
    """the map read is the one of the payload, or the one of the package, which is there"""
    from .lists import compare
    import os
    data = os.path.join(ctx.repo.root, "exorad", "data", "Zodi_map.hdf5")
    ctx.res.check(os.path.isfile(data), "the map of the package", "exorad/data/Zodi_map.hdf5", "no such file in the package")
    dirs = sorted(d for d in os.listdir(os.path.join(ctx.repo.root, "exorad")) if os.path.isdir(os.path.join(ctx.repo.root, "exorad", d)) and d != "__pycache__")
    repo = ctx.repo.probed(MAPS.replace("DATA", repr(dirs)), ext=MAPEXT)
    repo.place = "/pkg"
    for own, ours, asked, want, text in ((False, True, False, "packaged", "no map is declared"), (True, True, True, "mine", "a map is declared"), (True, False, True, "mine", "a map is declared and the package has none"),
                                         (True, True, False, "packaged", "no map is declared, one lies there"), (False, False, False, "factor", "there is none"), (False, False, True, "factor", "the one declared is missing")):
        m = M.Model(1)
        for v in ("packaged", "mine", "factor"):
            m.exact[v] = M.n(v, isq=False)

        def f(I, st):
            return I.call(I.repo_fn("exorad._probe", "used"), [yes(own), yes(ours), I.region("packaged"), I.region("mine"), I.region("factor"), yes(asked)], {}, st)
        t = "the sky map read when " + text
        compare(ctx, ctx.run(t, ZW, m, f, repo=repo), t, ZW, [X.var(want)])
