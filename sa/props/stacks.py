"""C33: the table of a target."""
from .. import expr as X
from .. import model as M
from .stellar import M_num
from .lists import compare

PROBE = '''
from collections import OrderedDict
from astropy.table import QTable
from exorad.models.target import Target
from exorad.tasks.targetHandler import PrepareTarget, UpdateTargetTable
from exorad.tasks.instrumentHandler import MergeChannelsOutput
from exorad.tasks.propagateLight import PropagateTargetLight, PropagateForegroundLight
from exorad.utils.util import vstack_tables


class Chan:
    def __init__(self, table, star, sky):
        self.table = table
        self.star = star
        self.sky = sky

    def propagate_target(self, target):
        return self.star

    def propagate_diffuse_foreground(self, target):
        return self.sky


def chans(ts, ss, fs):
    out = OrderedDict()
    for k, t, s, f in zip(["chB", "chA", "chC"], ts, ss, fs):
        out[k] = Chan(t, s, f)
    return out


def newtarget():
    t = Target()
    t.name = "star b"
    return t


def stack(a, b, c, d, e, f, g, h, i):
    return vstack_tables([a, b, c])


def single(a, b, c, d, e, f, g, h, i):
    return vstack_tables([b])


def merged(a, b, c, d, e, f, g, h, i):
    return MergeChannelsOutput()(channels=chans([a, b, c], [d, e, f], [g, h, i]))


def prepared(a, b, c, d, e, f, g, h, i):
    return PrepareTarget()(target=newtarget(), channels=chans([a, b, c], [d, e, f], [g, h, i])).table


def observed(a, b, c, d, e, f, g, h, i):
    cs = chans([a, b, c], [d, e, f], [g, h, i])
    t = PrepareTarget()(target=newtarget(), channels=cs)
    t = PropagateForegroundLight()(target=t, channels=cs)
    t = PropagateTargetLight()(target=t, channels=cs)
    return t.table


def observed_again(a, b, c, d, e, f, g, h, i):
    cs = chans([a, b, c], [d, e, f], [g, h, i])
    t = PrepareTarget()(target=newtarget(), channels=cs)
    t = PropagateTargetLight()(target=t, channels=cs)
    t = PropagateTargetLight()(target=t, channels=cs)
    t = PrepareTarget()(target=t, channels=cs)
    t = PropagateTargetLight()(target=t, channels=cs)
    t = PropagateForegroundLight()(target=t, channels=cs)
    return PropagateForegroundLight()(target=t, channels=cs).table


def one(a, b, c, d, e, f, g, h, i):
    cs = OrderedDict()
    cs["chB"] = Chan(a, d, g)
    t = PrepareTarget()(target=newtarget(), channels=cs)
    t = PropagateTargetLight()(target=t, channels=cs)
    return PropagateForegroundLight()(target=t, channels=cs).table


def replaced(a, b, c, d, e, f, g, h, i):
    t = newtarget()
    t.table = a
    return UpdateTargetTable()(target=t, table=d).table


def overlap(a, b, c, d, e, f, g, h, i):
    t = newtarget()
    t.table = a.copy()
    n = QTable()
    n["QE"] = d["starFlux"]
    n["fresh"] = d["starSignal"]
    return UpdateTargetTable()(target=t, table=n).table


def named(a, b, c, d, e, f, g, h, i):
    t = PrepareTarget()(target=newtarget(), channels=chans([a, b, c], [d, e, f], [g, h, i]))
    if t.table.meta["name"] == "star b":
        return 1.0
    return 0.0
'''

PROBE = PROBE.replace("PrepareTarget, UpdateTargetTable", "PrepareTarget, UpdateTargetTable, EstimateMaxSignal") + """

def rewritten(a, b, c, d, e, f, g, h, i):
    t = newtarget()
    t.table = a.copy()
    n = QTable()
    n["fresh"] = d["starSignal"]
    n["Wavelength"] = a["Wavelength"] * 2.0
    n["chName"] = ["chQ", "chR"]
    return UpdateTargetTable()(target=t, table=n).table


AGAIN = ["star_signal", "star_signal_inAperture", "star_MaxSignal_inPixel", "starFlux", "zodi_signal", "foreground_transmission", "instrument_signal", "MaxSignal_inPixel", "total_noise", "frameTime", "x", "signal"]


def refreshed(a, b, c, d, e, f, g, h, i):
    t = newtarget()
    t.table = a.copy()
    for q in AGAIN:
        t.table[q] = a["QE"]
    n = QTable()
    for q in AGAIN:
        n[q] = d["starFlux"]
    got = UpdateTargetTable()(target=t, table=n).table
    return [1.0 * len(got.keys())] + [got[q] for q in AGAIN] + [got["QE"]]


def meta(a, b, c, d, e, f, g, h, i):
    t = PrepareTarget()(target=newtarget(), channels=chans([a, b, c], [d, e, f], [g, h, i]))
    k = t.table.copy()
    n = QTable()
    n["fresh"] = k["QE"]
    n.meta["when"] = 3.0
    t = UpdateTargetTable()(target=t, table=n)
    m = QTable()
    m["other"] = k["QE"]
    t = UpdateTargetTable()(target=t, table=m)
    got = t.table.meta
    return [1.0 if got.get("name") == "star b" else 0.0, got.get("when", 0.0), 1.0 if "ExoRad version" in got else 0.0]


def brightest(p, q, r):
    t = newtarget()
    t.table = QTable()
    t.table["Wavelength"] = p["Wavelength"]
    t.table["star_MaxSignal_inPixel"] = p["x"]
    t.table["star_signal"] = p["z"]
    t.table["my MaxSignal sky_MaxSignal_inPixel"] = p["y"]
    t = EstimateMaxSignal()(target=t)
    one = t.table["MaxSignal_inPixel"].copy()
    t = EstimateMaxSignal()(target=t)
    return [one, t.table["MaxSignal_inPixel"], p["x"], p["y"], t.table["star_MaxSignal_inPixel"]]
"""
ROWS = {"a": 2, "b": 1, "c": 3}
CH = {"a": ("chB", "chB"), "b": ("chA",), "c": ("chC", "chC", "chC")}
EXTRA = {"a": ["x_noise"], "b": ["y_noise", "z_signal"], "c": ["x_noise"]}
STAR = {"d": ("a", ["starFlux", "starSignal"]), "e": ("b", ["starFlux", "starSignal"]), "f": ("c", ["starFlux", "starSignal", "slit_signal"])}
SKY = {"g": ("a", ["zodi_signal"]), "h": ("b", ["zodi_signal", "sky_signal"]), "i": ("c", ["zodi_signal"])}
ARGS = "abcdefghi"
UNITS = {"Wavelength": "um", "starFlux": "W m-2 um-1"}


def model():
    from ..lib import StrCol
    m = M.Model(1)
    for t, r in ROWS.items():
        cols = ["chName", "Wavelength", "QE"] + EXTRA[t]
        m.exact[t] = {"table": cols}
        m.exact[t + "[chName]"] = {"value": StrCol(CH[t])}
        for c in cols[1:]:
            m.exact["%s[%s]" % (t, c)] = M.n("%s[%s]" % (t, c), r, unit=unit(c), isq=c not in ("QE",) and not c.endswith("noise"))
    for t, (o, cols) in list(STAR.items()) + list(SKY.items()):
        m.exact[t] = {"table": cols}
        for c in cols:
            m.exact["%s[%s]" % (t, c)] = M.n("%s[%s]" % (t, c), ROWS[o], unit=unit(c))
    return m


def unit(c):
    from .stellar import U
    return U(UNITS.get(c, "ct s-1"))


def column(I, c, tabs):
    out = []
    for t in tabs:
        rows = ROWS[t] if t in ROWS else ROWS[{**STAR, **SKY}[t][0]]
        cols = ["Wavelength", "QE"] + EXTRA[t] if t in ROWS else {**STAR, **SKY}[t][1]
        if c in cols:
            out.append(M_num(I, "%s[%s]" % (t, c)))
        else:
            out.append(X.full(X.K(0.0), rows=rows))
    return X.rowcat(out)


def tables(ctx):
    repo = ctx.repo.probed(PROBE)
    base = {"Wavelength": "abc", "QE": "abc", "x_noise": "abc", "y_noise": "abc", "z_signal": "abc"}
    star = {"starFlux": "def", "starSignal": "def", "slit_signal": "def"}
    sky = {"zodi_signal": "ghi", "sky_signal": "ghi"}
    U = "exorad/utils/util.py vstack_tables"
    T = "exorad/tasks/targetHandler.py"
    cases = {
        "stack": (U, "tables stacked", base), "single": (U, "a single table", {"Wavelength": "b", "QE": "b", "y_noise": "b", "z_signal": "b"}),
        "merged": ("exorad/tasks/instrumentHandler.py MergeChannelsOutput", "tables of the channels merged", base),
        "prepared": (T + " PrepareTarget", "table of a fresh target", base), "observed": (T, "table of an observed target", {**base, **star, **sky}),
        "observed_again": (T, "table of a target observed again", {**base, **star, **sky}),
        "one": (T, "table of a target seen by one channel", {"Wavelength": "a", "QE": "a", "x_noise": "a", "starFlux": "d", "starSignal": "d", "zodi_signal": "g"}),
        "replaced": (T + " UpdateTargetTable", "columns added", {"Wavelength": "a", "QE": "a", "x_noise": "a", "starFlux": "d", "starSignal": "d"}),
        "overlap": (T + " UpdateTargetTable", "columns replaced", {"Wavelength": "a", "x_noise": "a", "QE": "new", "fresh": "new"})}
    for k, (where, text, cols) in cases.items():
        regs = []

        def f(I, st):
            regs.extend(I.region(v) for v in ARGS)
            return I.call(I.repo_fn("exorad._probe", k), list(regs), {}, st)
        r = ctx.run(text, where, model(), f, repo=repo)
        if r is None:
            continue
        I, st, v = r
        if k != "replaced":
            untouched(ctx, I, st, dict(zip(ARGS, regs)), text, where)
        from ..interp import Ref
        if not (isinstance(v, Ref) and I.o(v).kind == "table"):
            ctx.res.und(text, where, "not a table: %r" % (v,))
            continue
        have = ctx.cols(I, st, v)
        extra = [c for c in have if c not in cols and c != "chName"]
        ctx.res.check(not extra, text + ": no other column", where, "columns %s" % extra)
        names(ctx, I, st, v, [n for t in cols["Wavelength"] for n in CH[t]], text, where)
        for c, tabs in cols.items():
            want = M_num(I, "d[%s]" % {"QE": "starFlux", "fresh": "starSignal"}[c]) if tabs == "new" else column(I, c, tabs)
            ctx.eqcol(I, st, v, c, want, where, label="of " + text)
    where = T + " UpdateTargetTable"
    text = "columns of the table itself replaced"
    regs = []

    def g(I, st):
        regs.extend(I.region(v) for v in ARGS)
        return I.call(I.repo_fn("exorad._probe", "rewritten"), list(regs), {}, st)
    r = ctx.run(text, where, model(), g, repo=repo)
    if r is not None:
        I, st, v = r
        have = [c for c in ctx.cols(I, st, v) if c != "chName"]
        ctx.res.check(sorted(have) == sorted(["Wavelength", "QE", "x_noise", "fresh"]), text + ": the columns", where, "columns %s" % have)
        names(ctx, I, st, v, ["chQ", "chR"], text, where)
        ctx.eqcol(I, st, v, "Wavelength", X.mul(X.K(2.0), M_num(I, "a[Wavelength]")), where, label="of " + text)
        ctx.eqcol(I, st, v, "fresh", M_num(I, "d[starSignal]"), where, label="of " + text)
        ctx.eqcol(I, st, v, "QE", M_num(I, "a[QE]"), where, label="of " + text)
    text = "columns written again"
    r = ctx.run(text, where, model(), lambda I, st: I.call(I.repo_fn("exorad._probe", "refreshed"), [I.region(v) for v in ARGS], {}, st), repo=repo)
    if r is not None:
        I = r[0]
        compare(ctx, r, text, where, [X.K(16.0)] + [M_num(I, "d[starFlux]")] * 12 + [M_num(I, "a[QE]")], counted=True)
    text = "notes of the table of a target"
    r = ctx.run(text, where, model(), lambda I, st: I.call(I.repo_fn("exorad._probe", "meta"), [I.region(v) for v in ARGS], {}, st), repo=repo)
    if r is not None:
        compare(ctx, r, text, where, [X.ONE, X.K(3.0), X.ONE])
    where = T + " EstimateMaxSignal"
    text = "brightest pixel estimated once and again"
    m = M.Model(1)
    m.exact["p"] = {"table": ["Wavelength", "x", "y", "z"]}
    for c in ("Wavelength", "x", "y", "z"):
        m.exact["p[%s]" % c] = M.n("p[%s]" % c, 2, unit=unit(c))
    r = ctx.run(text, where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", "brightest"), [I.region(v) for v in "pqr"], {}, st), repo=repo)
    if r is not None:
        I = r[0]
        x, y = (M_num(I, "p[%s]" % c) for c in "xy")
        compare(ctx, r, text, where, [X.add(x, y), X.add(x, y), x, y, x])
    where = T + " PrepareTarget"
    r = ctx.run("name of the target", where, model(), lambda I, st: I.call(I.repo_fn("exorad._probe", "named"), [I.region(v) for v in ARGS], {}, st), repo=repo)
    if r is not None:
        I, st, v = r
        ctx.eq("name of the target in its table", where, I.num(v, st), X.ONE)


def names(ctx, I, st, tab, want, text, where):
    from ..lib import StrCol
    v = I.rd(st, (tab.oid, "item", "chName"), None)
    nm = text + ": channel names"
    if isinstance(v, StrCol):
        ctx.res.check(list(v.items) == want, nm, where, "computed %s where %s is required" % (list(v.items), want))
    elif v is None:
        ctx.res.bad(nm, where, "no channel names")
    else:
        ctx.res.und(nm, where, "%r" % (v,))


def untouched(ctx, I, st, regs, text, where):
    """the tables of the channels are as they were"""
    for t, ref in regs.items():
        want = ["chName", "Wavelength", "QE"] + EXTRA[t] if t in ROWS else {**STAR, **SKY}[t][1]
        have = list(ctx.cols(I, st, ref))
        nm = "%s: table %s left alone" % (text, t)
        if sorted(map(str, have)) != sorted(want):
            ctx.res.bad(nm, where, "its columns become %s" % have)
            continue
        for c in want:
            if c == "chName":
                continue
            got = ctx.col(I, st, ref, c)
            if got is not None:
                ctx.eq("%s (%s)" % (nm, c), where, got, M_num(I, "%s[%s]" % (t, c)))
