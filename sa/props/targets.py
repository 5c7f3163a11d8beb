"""C15: the lists of targets."""
from .. import expr as X
from .. import model as M
from .stellar import U

HEAD = [(1, "star", ""), (2, "M", "[M_sun]"), (3, "Teff", "K"), (4, "R", "[R_sun]"), (5, "D", "[pc]"), (6, "magk", ""),
        (8, "planet", ""), (9, "P", "[day]"), (10, "m", "M_earth"), (11, "r", "[R_jup]"), (12, "a", "[AU]"), (13, "i", "[deg]"), (14, "T14", "[hour]"),
        (15, "fi", "[bananas]"), (16, "mmw", "[]"), (17, "albedo", ""), (18, "T", "K"), (20, "seen", "")]

PROBE = '''
from astropy.table import QTable
from exorad.tasks.targetHandler import LoadTargetList


class Files:
    table = None
    rows = None


FILES = Files()


def read(name, **k):
    return FILES.table


class Sheet:
    def __init__(self, rows):
        self.rows = rows
        self.nrows = len(rows)
        self.ncols = len(rows[0])

    def row_values(self, rowx, start_colx=0, end_colx=None):
        return self.rows[rowx][start_colx:end_colx]

    def cell_value(self, rowx, colx):
        return self.rows[rowx][colx]

    def col_values(self, colx, start_rowx=0, end_rowx=None):
        return [r[colx] for r in self.rows][start_rowx:end_rowx]

    def cell(self, rowx, colx):
        return Cell(self.rows[rowx][colx])


class Cell:
    def __init__(self, v):
        self.value = v


class Book:
    def __init__(self, name=None, **k):
        pass

    def sheet_by_name(self, name):
        return Sheet(FILES.rows)


def csv(t):
    FILES.table = t
    return LoadTargetList()(target_list="dir.1/targets.csv")


def table(t):
    return LoadTargetList()(target_list=t)


HEAD = %r


def excel(t):
    pad = [""] * 22
    head, unit, one, two = list(pad), list(pad), list(pad), list(pad)
    for k, h, w in HEAD:
        head[k], unit[k] = h, w
        one[k], two[k] = t[h][0], t[h][1]
    head[1] = "Star Name"
    head[8] = "Planet Name"
    head[20] = "Nobs"
    FILES.rows = [pad, pad, head, unit, one, two]
    return LoadTargetList()(target_list="my.targets.xlsx")


def other(t):
    FILES.table = t
    return LoadTargetList()(target_list="targets.txt")


def found(t, what):
    return csv(t).searchTarget(what)
''' % (HEAD,)
EXT = {"astropy.io.ascii.read": "read", "xlrd.open_workbook": "Book"}
W = "exorad/models/targetlist.py "


def probed(ctx):
    if getattr(ctx, "_targets", None) is None:
        ctx._targets = ctx.repo.probed(PROBE, ext=EXT)
    return ctx._targets


def strings(col, n=2, names=None):
    from ..lib import StrCol
    from ..interp import StrV
    return {"value": StrCol(names or [StrV(("in", col, i)) for i in range(n)])}


def setup(cols, quantity=False, names=None, n=2):
    """cols: {column: None for text, True for numbers}"""
    m = M.Model(n)
    m.exact["tab"] = {"table": list(cols)}
    for c, num in cols.items():
        p = "tab[%s]" % c
        m.exact[p] = M.n(p, n, isq=quantity) if num else strings(c, n, names=names)
    return m


def run(ctx, name, m, f, where, total={}):
    return ctx.run(name, W + where, m, f, repo=probed(ctx), total=total)


def go(fn):
    return lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [I.region("tab")], {}, st)


def targets(ctx, I, st, v, tag, where, n=2):
    for c in I.excs:   # libraries do not fail by themselves
        st.assume(c, False)
    its = I.lib.iterate(plain(I, st, I.getattr(plain(I, st, v), "target", st)), st)
    if its is None:
        ctx.res.und("targets, " + tag, W + where, "list not known")
        return []
    ctx.res.check(len(its) == n and all(I.simp(c, st) is X.TRUE for _, c in its), "one target for each row, " + tag, W + where, "%d targets" % len(its))
    return [t for t, _ in its][:n]


def plain(I, st, v):
    from ..interp import Phi
    while isinstance(v, Phi):
        c = I.simp(v.cond, st)
        if c.op != "k":
            break
        v = v.a if c.args[0] else v.b
    return v


def value(I, st, t, path):
    for a in path.split("."):
        if I.simp(I.hasattr(t, a, st), st) is not X.TRUE:
            return None
        t = plain(I, st, I.getattr(t, a, st))
    return t


def el(col, i, unit=None, n=2):
    e = M.n("tab[%s]" % col, n)["num"].e
    e = X.el(e, i) if n > 1 else e
    return e if unit is None else X.mul(e, U(unit))


def expect(ctx, I, st, t, i, want, where, tag, rows=2):
    """want: {attribute: (column, unit) or a string value}"""
    from ..interp import StrV, Phi
    for a, w in want.items():
        v = value(I, st, t, a)
        name = "%s of row %d, %s" % (a, i, tag)
        if v is None:
            ctx.res.bad(name, W + where, "missing")
        elif isinstance(w, tuple) and w[0] == "text":
            s = StrV(("in", w[1], i)) if len(w) == 2 else w[2][i]
            ctx.res.check(v == s, name, W + where, "%r instead of %r" % (v, s))
        elif isinstance(w, int):
            n = I.lib.N(v, st)
            ctx.res.check(n is not None and n.e is X.K(w), name, W + where, "%r instead of %r" % (v, w))
        elif isinstance(v, (str, StrV)):
            ctx.res.bad(name, W + where, "the text %r" % (v,))
        elif isinstance(w, tuple) and w[0] == "value":
            ctx.eq(name, W + where, I.lib.N(v, st), w[1][i])
        else:
            n = I.lib.N(v, st)
            ctx.eq(name, W + where, n, el(w[0], i, w[1], rows))
            if n is not None and w[1]:
                ctx.res.check(n.isq or n.unit is not None, name + " has a unit", W + where, "plain number")


STAR = {"star name": None, "star M [M_sun]": True, "star Teff K": True, "star R [R_sun]": True, "star D [pc]": True, "star magk": True, "star kind": None, "star F [W m-2]": True}
STARW = {"star.name": ("text", "star name"), "star.M": ("star M [M_sun]", "M_sun"), "star.Teff": ("star Teff K", "K"), "star.R": ("star R [R_sun]", "R_sun"),
         "star.D": ("star D [pc]", "pc"), "star.magk": ("star magk", None), "star.kind": ("text", "star kind"), "star.F": ("star F [W m-2]", "W m-2")}
PLAN = {"planet name": None, "planet R [R_jup]": True, "planet a AU": True, "planet albedo": True, "planet P [day]": True}
PLANW = {"planet.name": ("text", "planet name"), "planet.R": ("planet R [R_jup]", "R_jup"), "planet.a": ("planet a AU", "AU"), "planet.albedo": ("planet albedo", None),
         "planet.P": ("planet P [day]", "day")}


def laws(ctx, tag, cols, want, fn="csv", quantity=False, exact=None, where="create_target_list", named=None, n=2):
    m = setup(cols, quantity, n=n)
    m.exact.update(exact or {})
    r = run(ctx, "targets, " + tag, m, go(fn), where)
    if not r:
        return
    I, st, v = r
    for i, t in enumerate(targets(ctx, I, st, v, tag, where, n)):
        expect(ctx, I, st, t, i, dict(want, id=i, name=named), where, tag, n)
        if not any(k.startswith("planet.") for k in want):
            ctx.res.check(I.simp(I.hasattr(t, "planet", st), st) is X.FALSE, "no planet for target %d, %s" % (i, tag), W + where, "a planet")


def mixed(a, b):
    """columns of star and planet in alternate order"""
    out = {}
    a, b = list(a.items()), list(b.items())
    while a or b:
        for s in (b, a):
            if s:
                k, v = s.pop(0)
                out[k] = v
    return out


def csv(ctx):
    laws(ctx, "csv of stars", STAR, STARW, named=("text", "star name"))
    for n in (1, 3):
        laws(ctx, "csv of stars, %d of them" % n, STAR, STARW, named=("text", "star name"), n=n)
        laws(ctx, "csv of stars and planets, %d of them" % n, dict(STAR, **PLAN), dict(STARW, **PLANW), named=("text", "planet name"), n=n)
    laws(ctx, "csv of stars and planets", mixed(STAR, PLAN), dict(STARW, **PLANW), named=("text", "planet name"))


MRS = {"Planet Name": ("planet.name", ("HD 12 b", "55 Cnc e")), "Star Name": ("star.name", ("HD 12", "55 Cnc")), "Star Mass [Ms]": ("star.M", "M_sun"), "Star Mass Error Lower [Ms]": (None, None),
       "Star Radius [Rs]": ("star.R", "R_sun"), "Star Radius error [Rs]": (None, None), "Star Temperature [K]": ("star.Teff", "K"),
       "Star Distance [pc]": ("star.D", "pc"), "Planet Radius [Re]": ("planet.R", "R_earth"), "Planet Mass [Mj]": ("planet.M", "M_jup"),
       "Planet Period [days]": ("planet.P", "day"), "Star MagK": ("star.magk", ""), "Planet Semi-major Axis [AU]": ("planet.a", "AU"),
       "Planet Molecular Weight": ("planet.mmw", ""), "Planet Impact Parameter": ("planet.b", ""), "Planet Transit Duration [s]": ("planet.T14", "s"),
       "Planet Heat Redistribution Factor": ("planet.Gamma", ""), "Planet Radius Error [Re]": (None, None), "Star Age": ("star.age", ("0,5", "1,25")),
       "Star Span [hour]": ("star.span", ("2,5", "3")), "Star Spectral Type": ("star.spectral type", ("G2 V", "M4,5")),
       "Planet Eccentricity": ("planet.eccentricity", ("0,25", "1.5")), "Planet Span [hour]": ("planet.span", ("12", "7,25"))}
MRS2 = {"Star Name": ("star.name", ("HD 12", "55 Cnc")), "Star Mass [Me]": ("star.M", "M_earth"), "Star Radius [Rj]": ("star.R", "R_jup"), "Star Temperature [K]": ("star.Teff", "K"),
        "Star Distance [AU]": ("star.D", "AU")}


def mission(ctx):
    for tag, spec in (("mission csv", MRS), ("mission csv of stars", MRS2)):
        cols, want, exact = {}, {}, {}
        for c, (a, w) in spec.items():
            cols[c] = None if w is None and a else True
            if not a:
                continue
            if isinstance(w, tuple):
                exact["tab[%s]" % c] = strings(c, names=list(w))
                vals = [s.replace(",", ".") for s in w]
                try:
                    unit = U("hr") if "[" in c else X.ONE
                    want[a] = ("value", [X.mul(X.K(float(s)), unit) for s in vals])
                except ValueError:
                    want[a] = ("text", c, vals)
            else:
                want[a] = (c, w or None)
        laws(ctx, tag, cols, want, exact=exact, where="CSVTargetListMRS", named=want["planet.name" if "planet.name" in want else "star.name"])


def excel(ctx):
    cols = {h: None if h in ("star", "planet") else True for _, h, _ in HEAD}
    want = {}
    for k, h, u in HEAD:
        who = "star." if k < 8 else "planet."
        if h in ("star", "planet"):
            want[who + "name"] = ("text", h)
        elif h == "seen":
            want["planet.Nobs"] = (h, None)
        else:
            want[who + h] = (h, None if u in ("", "[]", "[bananas]") else u.strip("[]"))
    laws(ctx, "spreadsheet", cols, want, "excel", where="XLXSTargetList", named=("text", "planet"))


def qtable(ctx):
    """a table already in memory: quantities, in whatever unit"""
    star = {"star name": None, "star M": True, "star Teff": True, "star kind": None}
    plan = {"planet name": None, "planet R": True, "planet a": True}
    sw = {"star.name": ("text", "star name"), "star.M": ("star M", None), "star.Teff": ("star Teff", None), "star.kind": ("text", "star kind")}
    pw = {"planet.name": ("text", "planet name"), "planet.R": ("planet R", None), "planet.a": ("planet a", None)}
    laws(ctx, "table of stars", star, sw, "table", True, where="QTableTargetList", named=("text", "star name"))
    laws(ctx, "table of stars and planets", mixed(star, plan), dict(sw, **pw), "table", True, where="QTableTargetList", named=("text", "planet name"))
    laws(ctx, "table of a star and planet", dict(star, **plan), dict(sw, **pw), "table", True, where="QTableTargetList", named=("text", "planet name"), n=1)
    for bad in ("star M", "star Teff"):
        m = setup(star, True)
        m.exact["tab[%s]" % bad] = M.n("tab[%s]" % bad, 2, isq=False)
        ctx.refuses("plain numbers refused, %s" % bad, W + "_check_quantities", m, go("table"), "a star without units is accepted", repo=probed(ctx))


def other(ctx):
    ctx.refuses("other formats refused", "exorad/tasks/targetHandler.py LoadTargetList.execute", setup(STAR), go("other"), "a .txt list is accepted", repo=probed(ctx))


SEARCH = [("hd12", [0]), ("55 CNC E", [1]), ("Cnc", [1]), ("nothing", []), ("hd-1", [0, 2]), ("hd_12", []), ("hd12b", [0]), ("c", [1, 2])]
NAMES = {"star name": ["HD-12", "55 Cnc", "Hd 189-C"], "planet name": ["HD 12 b", "55 cnc E", "hd189 c"]}


def search(ctx):
    where = "searchTarget"
    for tag, cols in (("stars", {"star name": None, "star Teff [K]": True}), ("planets", {"star name": None, "planet name": None, "star Teff [K]": True})):
        for what, want in SEARCH:
            m = M.Model(3)
            m.exact["tab"] = {"table": list(cols)}
            for c, num in cols.items():
                p = "tab[%s]" % c
                m.exact[p] = M.n(p, 3, isq=False) if num else strings(c, names=NAMES[c])
            if tag == "stars" and what in ("55 CNC E", "hd12b"):
                want = []
            name = "search of %r in %s" % (what, tag)
            r = ctx.run(name, W + where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", "found"), [I.region("tab"), what], {}, st), repo=probed(ctx), total={})
            if not r:
                continue
            I, st, v = r
            for c in I.excs:
                st.assume(c, False)
            its = I.lib.iterate(plain(I, st, v), st)
            if its is None or any(I.simp(c, st).op != "k" for _, c in its):
                ctx.res.und(name, W + where, "list not known")
                continue
            got = [value(I, st, t, "id") for t, c in its if I.simp(c, st) is X.TRUE]
            got = [I.lib.N(g, st).e for g in got]
            ctx.res.check(got == [X.K(i) for i in want], name, W + where, "finds %r instead of %r" % (got, want))
