"""C24: the plots show the table and leave it as it is."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from . import logs

SRC = logs.PROBE + '''

import numpy as np
import astropy.units as u
from astropy.table import QTable
from exorad.utils.plotter import Plotter


class Axis:
    def set_major_formatter(self, *a, **k):
        pass

    def set_minor_formatter(self, *a, **k):
        pass

    def set_major_locator(self, *a, **k):
        pass

    def set_minor_locator(self, *a, **k):
        pass


class Axes:
    def __init__(self):
        self.curves = []
        self.spans = []
        self.ylim = 0.0
        self.scale = "linear"
        self.ticks = []
        self.xaxis = Axis()
        self.yaxis = Axis()

    def plot(self, x, y, *a, label=None, **k):
        self.curves.append((label, x * 1.0, y * 1.0))

    def axvspan(self, lo, hi, *a, **k):
        self.spans.append((lo, hi))

    def set_ylim(self, y, *a, **k):
        self.ylim = y

    def set_xscale(self, s, *a, **k):
        self.scale = s

    def set_xticks(self, t, *a, **k):
        self.ticks = t

    def get_xaxis(self):
        return self.xaxis

    def get_yaxis(self):
        return self.yaxis

    def grid(self, *a, **k):
        pass

    def legend(self, *a, **k):
        pass

    def set_title(self, *a, **k):
        pass

    def set_xlabel(self, *a, **k):
        pass

    def set_ylabel(self, *a, **k):
        pass

    def set_yscale(self, *a, **k):
        pass

    def tick_params(self, *a, **k):
        pass


class Figure:
    def suptitle(self, *a, **k):
        pass

    def tight_layout(self, *a, **k):
        pass

    def subplots_adjust(self, *a, **k):
        pass

    def savefig(self, fname, *a, **k):
        SAVED.figs[fname] = self


class Saved:
    figs = {}
    axes = []


SAVED = Saved()


def subplots(n=1, m=1, *a, **k):
    if n == 1:
        ax = Axes()
        SAVED.axes = [ax]
        return Figure(), ax
    axs = (Axes(), Axes())
    SAVED.axes = [axs[0], axs[1]]
    return Figure(), axs


def anything(*a, **k):
    return anything


def table(wl, lo, hi, x, y, z, s, t):
    tab = QTable()
    tab["chName"] = ["chB", "chB", "chA"]
    tab["Wavelength"] = wl * u.um
    tab["LeftBinEdge"] = lo * u.um
    tab["RightBinEdge"] = hi * u.um
    tab["star_signal_inAperture"] = s * u.ct / u.s
    tab["zodi_signal_inAperture"] = (t - 1.5) * u.ct / u.s
    tab["star_signal_inAperture_noise"] = y * u.ct / u.s * u.hr ** 0.5
    tab["custom_a"] = x * u.hr ** 0.5
    tab["gain_noise"] = t * u.hr ** 0.5
    tab["noise_floor"] = (s - 1.5) * u.hr ** 0.5
    tab["total_noise"] = z * u.hr ** 0.5
    tab["TR"] = x
    tab["QE"] = y
    tab.meta["name"] = "HD 1"
    return tab


def curve(ax, label):
    return [(x, y) for l, x, y in ax.curves if l == label]


def plain(q, unit):
    return (q / u.Unit(unit)).decompose().value if hasattr(q, "unit") else q


def signals(wl, lo, hi, x, y, z, s, t):
    ax = Axes()
    Plotter(input_table=table(wl, lo, hi, x, y, z, s, t)).plot_signal(ax)
    a = curve(ax, "star_signal_inAperture")
    b = curve(ax, "zodi_signal_inAperture")
    return [plain(a[0][0], "um"), plain(a[0][1], "ct/s"), plain(b[0][0], "um"), plain(b[0][1], "ct/s"), 1.0 * len(a), 1.0 * len(b), 1.0 * len(ax.curves)]


def noises(wl, lo, hi, x, y, z, s, t):
    ax = Axes()
    Plotter(input_table=table(wl, lo, hi, x, y, z, s, t)).plot_noise(ax)
    a = curve(ax, "total_noise")
    b = curve(ax, "custom_a")
    c = curve(ax, "star_signal_inAperture_noise")
    d = curve(ax, "gain_noise")
    e = curve(ax, "noise_floor")
    return [plain(a[0][0], "um"), plain(a[0][1], "hr**0.5"), plain(b[0][0], "um"), plain(b[0][1], "hr**0.5"), plain(c[0][0], "um"), plain(c[0][1], "hr**0.5"), plain(d[0][1], "hr**0.5"), plain(e[0][1], "hr**0.5"), 1.0 * len(ax.curves)]


def bands(wl, lo, hi, x, y, z, s, t):
    ax = Axes()
    Plotter(input_table=table(wl, lo, hi, x, y, z, s, t)).plot_bands(ax)
    a, b = [plain(v, "um") for v in ax.spans[0]]
    c, d = [plain(v, "um") for v in ax.spans[1]]
    return [a + c, a * c, b + d, b * d, a * b + c * d, 1.0 * len(ax.spans)]


def kept(wl, lo, hi, x, y, z, s, t):
    tab = table(wl, lo, hi, x, y, z, s, t)
    p = Plotter(input_table=tab)
    p.plot_table()
    return [plain(tab[k], "") if k in ("TR", "QE") else tab[k].value for k in ("Wavelength", "LeftBinEdge", "RightBinEdge", "star_signal_inAperture", "zodi_signal_inAperture", "star_signal_inAperture_noise", "custom_a", "total_noise", "TR", "QE")] + [1.0 * len(tab.keys())]


def both(wl, lo, hi, x, y, z, s, t):
    p = Plotter(input_table=table(wl, lo, hi, x, y, z, s, t))
    p.plot_table()
    a = curve(SAVED.axes[0], "star_signal_inAperture")
    b = curve(SAVED.axes[1], "total_noise")
    p.save_fig("a.png")
    return [plain(a[0][1], "ct/s"), plain(b[0][1], "hr**0.5"), 1.0 * len(SAVED.axes[0].curves), 1.0 * len(SAVED.axes[1].curves), 1.0 if SAVED.figs["a.png"] is p.fig else 0.0]


def limits(wl, lo, hi, x, y, z, s, t):
    p = Plotter(input_table=table(wl, lo, hi, x, y, z, s, t))
    p.plot_table(sig_ylim=s[0], noise_ylim=t[0], scale="log")
    return [SAVED.axes[0].ylim, SAVED.axes[1].ylim, 1.0 if SAVED.axes[0].scale == "log" and SAVED.axes[1].scale == "log" else 0.0]


class Chan:
    def __init__(self, built):
        self.built_instr = built


def channel(wl, tr, wq, qe):
    return Chan({"transmission_data": {"wl_grid": {"value": wl, "unit": "um"}, "data": {"value": tr, "unit": ""}},
                 "qe_data": {"wl_grid": {"value": wq, "unit": "nm"}, "data": {"value": qe, "unit": ""}}})


def efficiency(wl, lo, hi, x, y, z, s, t):
    tab = table(wl, lo, hi, x, y, z, s, t)
    chans = {"chA": channel(wl, x, lo, y), "chB": channel(hi, z, s, t)}
    p = Plotter(input_table=tab, channels=chans)
    p.plot_efficiency()
    c = SAVED.axes[0].curves
    p.save_fig("e.png", efficiency=True)
    out = []
    for k in range(6):
        out = out + [plain(c[k][1], "um"), plain(c[k][2], "")]
    b = chans["chA"].built_instr
    return out + [1.0 * len(c), 1.0 if SAVED.figs["e.png"] is p.fig_efficiency else 0.0, b["transmission_data"]["data"]["value"], b["transmission_data"]["wl_grid"]["value"], b["qe_data"]["data"]["value"], b["qe_data"]["wl_grid"]["value"], plain(tab["TR"], ""), plain(tab["QE"], "")]


def figures(wl, lo, hi, x, y, z, s, t):
    tab = table(wl, lo, hi, x, y, z, s, t)
    p = Plotter(input_table=tab, channels={"chA": channel(wl, x, lo, y)})
    p.plot_table()
    p.plot_efficiency()
    p.save_fig("e.png", efficiency=True)
    p.save_fig("a.png")
    first = 1.0 if len(SAVED.figs) == 2 and SAVED.figs["a.png"] is p.fig and SAVED.figs["e.png"] is p.fig_efficiency and p.fig is not p.fig_efficiency else 0.0
    return [first, 1.0 if "name" in tab.meta and tab.meta["name"] == "HD 1" else 0.0, 1.0 * len(tab.meta)]


def nothing(wl, lo, hi, x, y, z, s, t):
    p = Plotter(input_table=table(wl, lo, hi, x, y, z, s, t))
    r = p.plot_efficiency()
    p.save_fig("a.png")
    p.save_fig("b.png", efficiency=True)
    return [1.0 if r is None else 0.0, 1.0 * len(SAVED.figs)]


def one_only(wl, lo, hi, x, y, z, s, t):
    tab = table(wl, lo, hi, x, y, z, s, t)
    p = Plotter(input_table=tab, channels={"chA": channel(wl, x, lo, y)})
    p.plot_table()
    p.save_fig("b.png", efficiency=True)
    n = 1.0 * len(SAVED.figs)
    q = Plotter(input_table=tab, channels={"chA": channel(wl, x, lo, y)})
    q.plot_efficiency()
    q.save_fig("c.png")
    return [n, 1.0 * len(SAVED.figs)]


def finer(wl, lo, hi, x, y, z, s, t):
    few = np.array([wl[0], wl[1]])
    tr = np.array([x[0], x[1]])
    chans = {"chA": channel(few, tr, lo, y), "chB": channel(hi, z, np.array([s[0], s[1]]), np.array([t[0], t[1]]))}
    p = Plotter(input_table=table(wl, lo, hi, x, y, z, s, t), channels=chans)
    p.plot_efficiency()
    c = SAVED.axes[0].curves
    out = []
    for k in range(6):
        out = out + [plain(c[k][1], "um"), plain(c[k][2], "")]
    return out + [1.0 * len(c)]
'''
EXT = {"matplotlib.pyplot.subplots": "subplots", "matplotlib.cm.get_cmap": "anything", "matplotlib.colors.Normalize": "anything", "matplotlib.ticker.ScalarFormatter": "anything",
       "matplotlib.ticker.LogLocator": "anything", "matplotlib.ticker.NullFormatter": "anything", "matplotlib.lines.Line2D": "anything", "matplotlib.pyplot.tight_layout": "anything",
       "matplotlib.pyplot.subplots_adjust": "anything", "matplotlib.colormaps.get_cmap": "anything", "logging.getLogger": "getLogger"}
NAMES = ("wl", "lo", "hi", "x", "y", "z", "s", "t")
W = "exorad/utils/plotter.py Plotter."


def resample(lib, fn, args, kw, st, node):
    from ..interp import Tup
    v = dict(zip(("x", "xp", "fp"), args))
    v.update(kw)
    x, xp, fp = [lib.N(v.get(k), st) for k in ("x", "xp", "fp")]
    if None in (x, xp, fp):
        return lib.I.unk("rebin", node)
    return Tup([v["x"], lib.I.cell(st, Num(resampled(x.e, xp.e, fp.e), fp.unit, True))])


def resampled(x, xp, fp):
    n, m = [e.rows or 3 for e in (x, xp)]
    return X.stack([X.opq("resample", X.el(x, i), *[X.el(e, k) for e in (xp, fp) for k in range(m)]) for i in range(n)])


def law(ctx, fn, text, method, want):
    from .lists import compare
    m = M.Model(1)
    for n in NAMES:
        m.exact[n] = M.n(n, 3, isq=False)
    where = W + method
    repo = ctx.repo.probed(SRC, ext=EXT)
    r = ctx.run(text, where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [I.region(x) for x in NAMES], {}, st), repo=repo, stub={"rebin": resample})
    compare(ctx, r, text, where, want)


def shown(ctx):
    wl, lo, hi, x, y, z, s, t = [X.var(n, rows=3) for n in NAMES]
    one = X.K(1.0)
    law(ctx, "signals", "curves of the signals", "plot_signal", [wl, s, wl, X.sub(t, X.K(1.5)), one, one, X.K(2.0)])
    law(ctx, "noises", "curves of the noise", "plot_noise", [wl, z, wl, x, wl, X.div(y, s), t, X.sub(s, X.K(1.5)), X.K(5.0)])
    mn = lambda e: X.ite(X.cmp("lt", X.el(e, 0), X.el(e, 1)), X.el(e, 0), X.el(e, 1))
    mx = lambda e: X.ite(X.cmp("lt", X.el(e, 1), X.el(e, 0)), X.el(e, 0), X.el(e, 1))
    a, b, c, d = X.el(lo, 2), X.el(hi, 2), mn(lo), mx(hi)
    law(ctx, "bands", "bands of the channels", "plot_bands", [X.add(a, c), X.mul(a, c), X.add(b, d), X.mul(b, d), X.add(X.mul(a, b), X.mul(c, d)), X.K(2.0)])
    law(ctx, "kept", "the table after plotting it", "plot_table", [wl, lo, hi, s, X.sub(t, X.K(1.5)), y, x, z, x, y, X.K(13.0)])
    law(ctx, "both", "panels of the figure", "plot_table", [s, z, X.K(2.0), X.K(5.0), one])
    law(ctx, "limits", "limits of the panels", "plot_table", [X.el(s, 0), X.el(t, 0), one])
    from .stellar import U
    um = U("um")
    a, b = X.mul(lo, X.K(1e-3)), X.mul(s, X.K(1e-3))
    bent = lambda x, xp, fp: resampled(X.mul(x, um), X.mul(xp, um), fp)
    law(ctx, "efficiency", "curves of the efficiency", "plot_efficiency",
        [wl, x, a, y, wl, X.mul(x, bent(wl, a, y)), hi, z, b, t, hi, X.mul(z, bent(hi, b, t)), X.K(6.0), one, x, wl, y, lo, x, y])
    two = lambda e: X.stack([X.el(e, 0), X.el(e, 1)])
    b = two(b)
    law(ctx, "finer", "curves of efficiencies on finer and coarser grids", "plot_efficiency",
        [two(wl), two(x), a, y, two(wl), X.mul(two(x), bent(two(wl), a, y)), hi, z, b, two(t), hi, X.mul(z, bent(hi, b, two(t))), X.K(6.0)])
    law(ctx, "one_only", "the figure that was not made", "save_fig", [X.ZERO, X.ZERO])
    law(ctx, "figures", "both figures of one plotter", "save_fig", [one, one, one])
    law(ctx, "nothing", "figures that were not made", "save_fig", [one, X.ZERO])
