"""C05, C21, C22: lists of targets."""
from .. import expr as X
from .. import model as M
from .tasks import flat
from . import logs

PROBE = logs.PROBE + '''

import copy
from exorad.tasks.targetHandler import ObserveTargetlist
from exorad.models.target import Target


class Fault(Exception):
    pass


class Table:
    pass


class Done:
    def __init__(self, v):
        self.v = v

    def result(self, timeout=None):
        return self.v


class Pool:
    def __init__(self, max_workers=None, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, fn, *its, **k):
        return [fn(*a) for a in zip(*its)]

    def submit(self, fn, *a, **k):
        return Done(fn(*a, **k))

    def shutdown(self, *a, **k):
        pass


class Away(Pool):
    """another process: it works on copies, and hands back copies"""
    def map(self, fn, *its, **k):
        return [copy.deepcopy(fn(*copy.deepcopy(a))) for a in zip(*its)]

    def submit(self, fn, *a, **k):
        return Done(copy.deepcopy(fn(*copy.deepcopy(a), **k)))


def as_completed(fs, timeout=None):
    """in any order"""
    return list(fs)[::-1]


class Case:
    broken = 0.0
    spoiled = 0.0
    level = 0.0
    saved = {}


CASE = Case()


def observe(self):
    t = self.get_task_param("target")
    CASE.level = HAND.level
    t.payload = self.get_task_param("payload")
    t.channels = self.get_task_param("channels")
    t.wl_range = self.get_task_param("wl_range")
    t.table = Table()
    if t.broken > 1.2:
        if t.how == "value":
            raise ValueError("unusable")
        elif t.how == "key":
            raise KeyError("unusable")
        elif t.how == "os":
            raise OSError("unusable")
        else:
            raise Fault("unusable")
    t.table.signal = t.flux
    self.set_output(t)


class Plots:
    def __init__(self, *a, **k):
        self.table = k["input_table"] if "input_table" in k else a[0] if a else None
        if CASE.spoiled > 1.2:
            raise Fault("cannot be drawn")

    def plot_table(self, *a, **k):
        pass

    def plot_bands(self, *a, **k):
        pass

    plot_noise = plot_signal = plot_efficiency = plot_bands

    def save_fig(self, name, *a, **k):
        CASE.saved[name] = self.table.signal


def targets(xs, bs, hows):
    out = []
    for name, x, b, how in zip(["one", "two", "three"], xs, bs, hows):
        t = Target()
        t.name = name
        t.flux = x
        t.broken = b
        t.how = how
        out.append(t)
    return out


def observe_list(x, y, z, a, b, c, pay, chan, lo, hi, plot, n, debug, how):
    ts = targets([x, y, z], [a, b, c], how)
    r = ObserveTargetlist()(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=plot, out_dir="out", n_thread=n, debug=debug)
    got = []
    for k in ["one", "two", "three"]:
        if k in r:
            got.append(r[k].table.signal)
        else:
            got.append(-1.0)
    return got


def observed(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    return observe_list(x, y, z, a, b, c, pay, chan, lo, hi, False, n, debug, how)


def plotted(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how, s):
    CASE.spoiled = s
    return observe_list(x, y, z, a, b, c, pay, chan, lo, hi, True, n, debug, how)


def drawn(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    """what each plot shows, and none when plots are not asked for"""
    CASE.saved = {}
    observe_list(x, y, z, a, b, c, pay, chan, lo, hi, False, n, debug, how)
    got = [len(CASE.saved)]
    observe_list(x, y, z, a, b, c, pay, chan, lo, hi, True, n, debug, how)
    for k in ["one", "two", "three"]:
        f = "out/" + k + ".png"
        if f in CASE.saved:
            got.append(CASE.saved[f])
        else:
            got.append(-1.0)
    return got + [len(CASE.saved)]


def count(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    ts = targets([x, y, z], [a, b, c], how)
    return len(ObserveTargetlist()(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug))


def given(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    ts = targets([x, y, z], [a, b, c], how)
    r = ObserveTargetlist()(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug)
    got = []
    for k in ["one", "two", "three"]:
        t = r[k]
        got.append(t.payload)
        got.append(t.channels)
        got.append(t.wl_range[0])
        got.append(t.wl_range[1])
    return got


def order(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    ts = targets([x, y, z], [a, b, c], how)
    r = ObserveTargetlist()(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug)
    return [t.table.signal for t in r.values()]


def kept(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    ts = targets([x, y, z], [a, b, c], how)
    obs = ObserveTargetlist()
    r = obs(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug)
    for t in ts:
        t.flux = 0.5
    s = obs(targets=ts, payload=chan, channels=pay, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug)
    got = []
    for k in ["one", "two", "three"]:
        got.append(r[k].table.signal)
        got.append(r[k].payload)
    for k in ["one", "two", "three"]:
        got.append(s[k].table.signal)
        got.append(s[k].payload)
    return got


NAMES = ["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15", "t16", "t17", "t18", "t19", "t20"]


def many(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how):
    ts = []
    for i in range(21):
        t = Target()
        t.name = NAMES[i]
        t.flux = x + i
        t.broken = 2.0 if i % 6 == 4 else 0.0
        t.how = how[i % 3]
        ts.append(t)
    r = ObserveTargetlist()(targets=ts, payload=pay, channels=chan, wl_range=(lo, hi), plot=False, out_dir="out", n_thread=n, debug=debug)
    got = []
    for i in range(21):
        k = NAMES[i]
        if k in r:
            got.append(r[k].table.signal)
        else:
            got.append(-1.0)
    return got


def loglevel(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how, lev):
    setLogLevel(lev)
    observed(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how)
    return HAND.level


def during(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how, lev):
    setLogLevel(lev)
    observed(x, y, z, a, b, c, pay, chan, lo, hi, n, debug, how)
    return CASE.level
'''
FLUX = ("x", "y", "z")
BROKEN = ("a", "b", "c")
HOW = ("value", "key", "other")
HOW2 = ("os", "other", "value")


def run(ctx, fn, text, n=1, debug=False, how=HOW, sym=True, more=()):
    from ..interp import Num
    where = "exorad/tasks/targetHandler.py ObserveTargetlist"
    repo = ctx.repo.probed(PROBE, ext={"logging.getLogger": "getLogger", "concurrent.futures.ProcessPoolExecutor": "Away", "concurrent.futures.as_completed": "as_completed", "concurrent.futures.ThreadPoolExecutor": "Pool",
                                       "multiprocessing.Pool": "Away"}, methods={"ObserveTarget.execute": "observe"}, classes={"Plotter": "Plots"})
    m = M.Model(1)
    for v in FLUX + BROKEN + ("pay", "chan", "lo", "hi") + tuple(more):
        m.exact[v] = M.n(v, isq=False)

    def f(I, st):
        from ..interp import Tup
        arg = [I.region(v) for v in FLUX]
        arg += [I.region(v) for v in BROKEN] if sym else [Num(X.K(-1.0), isq=False)] * 3
        arg += [I.region(v) for v in ("pay", "chan", "lo", "hi")]
        arg += [Num(X.K(n), isq=False), Num(X.TRUE if debug else X.FALSE), Tup(list(how))]
        arg += [I.region(v) for v in more]
        return I.call(I.repo_fn("exorad._probe", fn), arg, {}, st)
    r = ctx.run(text, where, m, f, repo=repo)
    return where, r


def kept(v, b):
    return X.ite(X.cmp("lt", X.K(1.2), X.var(b)), X.K(-1.0), X.var(v))


def compare(ctx, r, text, where, want, counted=False):
    """counted: the first value says how many follow"""
    if r is None:
        return
    I, st, v = r
    from ..interp import Tup, Ref
    it = I.lib.iterate(v, st) if isinstance(v, Ref) else None
    got = flat(I, v if it is None else Tup([e for e, c in it]), st)
    if len(got) != len(want):
        if counted and got and isinstance(got[0], X.E) and not I.unks:
            return ctx.eq(text + " (how many)", where, got[0], want[0])
        ctx.res.und(text, where, "%d values" % len(got))
        return
    for i, (g, w) in enumerate(zip(got, want)):
        nm = "%s (%d)" % (text, i + 1)
        if isinstance(g, X.E):
            ctx.eq(nm, where, g, w)
        elif g is None:
            ctx.res.bad(nm, where, "None")
        else:
            ctx.res.und(nm, where, "value %r" % (g,))


def isolation(ctx):
    for n in (1, 2):
        for debug in (False, True):
            for how in (HOW, HOW2):
                text = "targets of a list, %s, %s, %s" % ("serial" if n == 1 else "parallel", "debug" if debug else "quiet", "/".join(how))
                where, r = run(ctx, "observed", text, n, debug, how)
                compare(ctx, r, text, where, [kept(v, b) for v, b in zip(FLUX, BROKEN)])
        text = "number of observed targets, %s" % ("serial" if n == 1 else "parallel")
        where, r = run(ctx, "count", text, n)
        compare(ctx, r, text, where, [number()])


def number():
    one = lambda b: X.ite(X.cmp("lt", X.K(1.2), X.var(b)), X.K(0.0), X.K(1.0))
    return X.add(X.add(one("a"), one("b")), one("c"))


def plots(ctx):
    for n in (1, 2):
        text = "targets whose plots fail, %s" % ("serial" if n == 1 else "parallel")
        where, r = run(ctx, "plotted", text, n, more=("s",))
        compare(ctx, r, text, where, [kept(v, b) for v, b in zip(FLUX, BROKEN)])


def figures(ctx):
    for n in (1, 2):
        for debug in (False, True):
            text = "plots of the observed targets, %s, %s" % ("serial" if n == 1 else "parallel", "debug" if debug else "quiet")
            where, r = run(ctx, "drawn", text, n, debug)
            compare(ctx, r, text, where, [X.K(0)] + [kept(v, b) for v, b in zip(FLUX, BROKEN)] + [number()])


def parallel(ctx):
    for n in (1, 2, 8):
        mode = "serial" if n == 1 else "%d processes" % n
        text = "parameters of each observation, %s" % mode
        where, r = run(ctx, "given", text, n, sym=False)
        compare(ctx, r, text, where, [X.var(v) for _ in range(3) for v in ("pay", "chan", "lo", "hi")])
        text = "number of observed targets, %s" % mode
        where, r = run(ctx, "count", text, n)
        compare(ctx, r, text, where, [number()])
        text = "order of the observed targets, %s" % mode
        where, r = run(ctx, "order", text, n, sym=False)
        compare(ctx, r, text, where, [X.var(v) for v in FLUX])
        for debug in (False, True):
            text = "targets of a list, %s, %s" % (mode, "debug" if debug else "quiet")
            where, r = run(ctx, "observed", text, n, debug)
            compare(ctx, r, text, where, [kept(v, b) for v, b in zip(FLUX, BROKEN)])
            text = "log level during an observation, %s, %s" % (mode, "debug" if debug else "quiet")
            where, r = run(ctx, "during", text, n, debug, more=("lev",))
            compare(ctx, r, text, where, [X.var("lev") if debug else X.K(40)])


def many(ctx):
    for n in (1, 2, 3, 4):
        for debug in (False, True):
            text = "a long list, %s, %s" % ("serial" if n == 1 else "%d processes" % n, "debug" if debug else "quiet")
            where, r = run(ctx, "many", text, n, debug, sym=False)
            compare(ctx, r, text, where, [X.K(-1.0) if i % 6 == 4 else X.add(X.var("x"), X.K(float(i))) for i in range(21)])


def apart(ctx):
    for n in (1, 2):
        text = "list observed, and observed again with another payload, %s" % ("serial" if n == 1 else "parallel")
        where, r = run(ctx, "kept", text, n, sym=False)
        want = []
        for v in FLUX:
            want += [X.var(v), X.var("pay")]
        compare(ctx, r, text, where, want + [X.K(0.5), X.var("chan")] * 3)


def level(ctx):
    for debug in (False, True):
        text = "log level after observing a list, %s" % ("debug" if debug else "quiet")
        where, r = run(ctx, "loglevel", text, 1, debug, more=("lev",))
        compare(ctx, r, text, where, [X.var("lev")])
        text = "log level during an observation, %s" % ("debug" if debug else "quiet")
        where, r = run(ctx, "during", text, 1, debug, more=("lev",))
        compare(ctx, r, text, where, [X.var("lev") if debug else X.K(40)])
