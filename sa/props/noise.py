"""C11 noise budget, C12 readout, C06 accounting of the signals."""
from .. import expr as X
from .. import model as M
from .stellar import M_num, mul, CT, U, row
from .diffuse import inv

HR = X.atom("unit:hr")
ROWS = ["ch"] + ["chB"] * 6 + ["chB2"]
SEL = (1, 2, 3, 4, 5, 6)
SIGNALS = ["star_signal_inAperture", "instrument_signal", "zodi_signal", "custom_signal"]
OTHERS = ["starFlux", "starSignal", "star_MaxSignal_inPixel", "MaxSignal_inPixel", "foreground_transmission"]
NR = "exorad/tasks/noiseHandler.py EstimateNoiseInChannel.execute"


def K(v):
    return X.K(v)


def sqrt(e):
    return X.pw(e, K(0.5))


def setup(custom=None, common=None, signals=SIGNALS):
    from ..lib import StrCol
    from ..interp import Num
    m = M.Model(len(ROWS))
    m.exact["target"] = {"cls": "Target", "has": True}
    M.table_rules(m, "target.table", len(ROWS), extra=list(signals) + OTHERS)
    m.exact["target.table[chName]"] = {"value": StrCol(ROWS)}
    m.exact["target.table[star_signal_inAperture]"] = M.n("target.table[star_signal_inAperture]", len(ROWS), unit="ct s-1", kind="nonneg0")
    m.exact["target.table[foreground_transmission]"] = M.n("target.table[foreground_transmission]", len(ROWS), isq=False)
    det = [(k,) if k in ("frame_time", "multiaccumM") else k for k in ("well_depth", "frame_time", "f_well_depth", "freqNDR", "multiaccumM", "dark_current", "read_noise")]
    m.exact["channel"] = {"keys": ["value", "detector", ("NoiseX",)] + (["customNoise"] if custom else []), "dcls": "OrderedDict"}
    m.exact["channel[value]"] = {"str": "chB"}
    m.exact["channel[detector]"] = {"keys": det, "dcls": "OrderedDict"}
    for k, u in (("well_depth", "ct"), ("frame_time", "s"), ("f_well_depth", ""), ("freqNDR", "Hz"), ("multiaccumM", ""), ("dark_current", "ct s-1"), ("read_noise", "ct")):
        m.exact["channel[detector][%s][value]" % k] = M.n("channel[detector][%s][value]" % k, unit=None if u else X.ONE, kind="wide" if k == "freqNDR" else "num")
    m.exact["channel[NoiseX][value]"] = M.n("channel[NoiseX][value]", isq=False)
    m.exact["payload"] = {"keys": ["common", "optics"], "dcls": "dict"}
    m.exact["payload[common]"] = {"keys": ["wl_min"] + (["customNoise"] if common else []), "dcls": "OrderedDict"}
    for base, kind in (("channel[customNoise]", custom), ("payload[common][customNoise]", common)):
        if kind == "single":
            m.exact[base] = {"keys": ["value", "name"], "dcls": "dict"}
            m.exact[base + "[name]"] = {"keys": ["value"]}
            m.exact[base + "[name][value]"] = {"str": "floor" + base[:2]}
            m.exact[base + "[value]"] = M.n(base + "[value]", isq=False, kind="ppm")
        elif kind == "several":
            m.exact[base] = {"keys": ["a", "b", "c"], "dcls": "OrderedDict"}
            for c in "abc":
                q = base + "[%s]" % c
                m.exact[q] = {"keys": ["value", "name"], "dcls": "dict"}
                m.exact[q + "[value]"] = M.n(q + "[value]", isq=False, kind="ppm")
                m.exact[q + "[name]"] = {"keys": ["value"]}
                m.exact[q + "[name][value]"] = {"str": "n" + c + base[:2]}
        elif kind == "data":
            m.exact[base] = {"keys": ["value", "data"], "dcls": "dict"}
            m.exact[base + "[data]"] = {"table": ["Wavelength", "jitter", "Wobble", "wander"]}
            w = base + "[data][Wavelength]"
            m.exact[w] = {"num": Num(X.LAM, X.uof(w), True, base)} if base.startswith("channel") else M.lamq(base)
            for c in ("jitter", "Wobble", "wander"):
                m.exact[base + "[data][%s]" % c] = M.n(base + "[data][%s]" % c, wl=True, isq=False, grid=base)
    return m


def at_rows(e):
    return X.take(e, SEL)


def readout(I):
    det = "channel[detector]"
    v = lambda k: M_num(I, det + "[%s][value]" % k)
    sat = X.div(v("well_depth"), at_rows(M_num(I, "target.table[MaxSignal_inPixel]")))
    ft = X.ite(X.has(det, "frame_time"), v("frame_time"), X.mul(v("f_well_depth"), X.red("min", sat, "row")))
    nr = X.fn("floor", X.mul(ft, v("freqNDR")))
    nr = X.ite(X.cmp("lt", nr, K(2.0)), K(2.0), nr)
    m = X.ite(X.has(det, "multiaccumM"), v("multiaccumM"), X.ONE)
    nn = X.add(X.mul(nr, nr), nr)
    read_gain = mul(K(12.0), X.sub(nr, X.ONE), inv(nn), inv(m))
    shot_gain = mul(K(6.0), X.add(X.mul(nr, nr), X.ONE), inv(nn), K(0.2))
    return sat, X.full(ft, rows=len(SEL)), read_gain, shot_gain


def terms(I, signals=SIGNALS):
    det = "channel[detector]"
    v = lambda k: M_num(I, det + "[%s][value]" % k)
    sat, ft, rg, sg = readout(I)
    win = at_rows(M_num(I, "target.table[WindowSize]"))
    phot = {s: sqrt(mul(sg, at_rows(M_num(I, "target.table[%s]" % s)), CT)) for s in signals}
    dark = sqrt(mul(sg, win, v("dark_current"), CT))
    read = sqrt(mul(rg, v("read_noise"), v("read_noise"), win, inv(ft)))
    nx = X.ite(X.has("channel", "NoiseX"), M_num(I, "channel[NoiseX][value]"), X.ZERO)
    var = X.ZERO
    for s in signals:
        var = X.add(var, X.mul(phot[s], phot[s]))
    return phot, dark, read, nx, var


def base_noise(I, signals=SIGNALS):
    phot, dark, read, nx, var = terms(I, signals)
    star = at_rows(M_num(I, "target.table[star_signal_inAperture]"))
    tot = sqrt(X.add(X.add(X.mul(dark, dark), X.mul(X.add(X.ONE, nx), var)), X.mul(read, read)))
    nan = X.div(X.ZERO, X.ZERO)
    return X.ite(X.cmp("eq", star, X.ZERO), nan, X.div(tot, star))


def customs(I, base, kind):
    out = {}
    ppm = X.mul(K(1e-6), sqrt(HR))
    wl = at_rows(M_num(I, "target.table[Wavelength]"))
    if kind == "single":
        out["floor" + base[:2]] = X.full(X.mul(M_num(I, base + "[value]"), ppm), rows=len(SEL))
    elif kind == "several":
        for c in "abc":
            out["n" + c + base[:2]] = X.full(X.mul(M_num(I, base + "[%s][value]" % c), ppm), rows=len(SEL))
    elif kind == "data":
        for c in ("jitter", "Wobble", "wander"):
            e = X.ite(X.inr(wl, repr(base)), X.at(M_num(I, base + "[data][%s]" % c), wl), X.ZERO)
            out[c] = X.mul(e, sqrt(HR))
    return out


def run(ctx, name, m):
    def f(I, st):
        I2 = I
        cls = task(I2, "EstimateNoiseInChannel", st)
        return I2.call(cls, [], {"target": I2.region("target"), "channel": I2.region("channel"), "payload": I2.region("payload")}, st)
    return ctx.run(name, NR, m, f)


def task(I, name, st):
    """an instance of a task class"""
    from ..interp import ClsV
    c = I.repo.find_class(name)
    if c is None:
        from ..repo import Broken
        raise Broken("class %s is gone" % name)
    return I.call(ClsV(c), [], {}, st)


def budget(ctx):
    for custom, common in ((None, None), ("single", None), ("several", None), ("data", None), (None, "single"), (None, "several"), ("single", "data"), ("several", "several")):
        name = "noise (channel custom noise: %s, common: %s)" % (custom, common)
        r = run(ctx, name, setup(custom, common))
        if r is None:
            continue
        I, st, v = r
        phot, dark, read, nx, var = terms(I)
        tot = base_noise(I)
        spec = {"noties": True}
        if custom is None and common is None:
            for s, e in phot.items():
                ctx.eqcol(I, st, v, s + "_noise", e, NR, spec=spec)
            ctx.eqcol(I, st, v, "darkcurrent_noise", dark, NR, spec=spec)
            ctx.eqcol(I, st, v, "read_noise", read, NR, spec=spec)
        for base, kind in (("payload[common][customNoise]", common), ("channel[customNoise]", custom)):
            for k, e in customs(I, base, kind).items():
                ctx.eqcol(I, st, v, k + "_noise", e, NR, spec=spec)
                tot = sqrt(X.add(X.mul(tot, tot), X.mul(e, e)))
        ctx.eqcol(I, st, v, "total_noise", tot, NR, spec=spec)


def readout_check(ctx):
    r = run(ctx, "readout", setup())
    if r is None:
        return
    I, st, v = r
    sat, ft, rg, sg = readout(I)
    ctx.eqcol(I, st, v, "saturation_time", sat, NR)
    ctx.eqcol(I, st, v, "frameTime", ft, NR)
    phot, dark, read, nx, var = terms(I)
    ctx.eqcol(I, st, v, "darkcurrent_noise", dark, NR, spec={"noties": True})
    ctx.eqcol(I, st, v, "read_noise", read, NR, spec={"noties": True})
    mm = setup()
    mm.exact["t_frame"] = M.n("t_frame", unit="s")
    where = "exorad/models/noise.py multiaccum"
    r = ctx.run("multiaccum", where, mm, lambda I, st: I.call(I.repo_fn("exorad.models.noise", "multiaccum"), [I.region("channel"), I.region("t_frame")], {}, st))
    if r is None:
        return
    I, st, v = r
    det = "channel[detector]"
    ft = M_num(I, "t_frame")
    nr = X.fn("floor", X.mul(ft, M_num(I, det + "[freqNDR][value]")))
    nr = X.ite(X.cmp("lt", nr, K(2.0)), K(2.0), nr)
    m = X.ite(X.has(det, "multiaccumM"), M_num(I, det + "[multiaccumM][value]"), X.ONE)
    nn = X.add(X.mul(nr, nr), nr)
    from ..interp import Tup
    if isinstance(v, Tup) and len(v.items) == 2:
        ctx.eq("read noise gain", where, I.num(v.items[0], st), mul(K(12.0), X.sub(nr, X.ONE), inv(nn), inv(m)))
        ctx.eq("shot noise gain", where, I.num(v.items[1], st), mul(K(6.0), X.add(X.mul(nr, nr), X.ONE), inv(nn), K(0.2)))
    else:
        ctx.res.und("multiaccum gains", where, "result is not a pair")


TR = "exorad/tasks/targetHandler.py EstimateMaxSignal.execute"
MAXES = ["star_MaxSignal_inPixel", "instrument_MaxSignal_inPixel", "zodi_MaxSignal_inPixel", "custom_MaxSignal_inPixel"]


# sources whose names look like those of the columns, and the columns of a previous estimation
ODD = ["star_signal_inAperture", "M1 signal", "TelMax signal", "MaxSky_signal", "xsignalx_signal", "noise_signal"]
ODDMAX = ["star_MaxSignal_inPixel", "instrument_MaxSignal_inPixel", "MaxSky_MaxSignal_inPixel", "xsignalx_MaxSignal_inPixel", "noise_MaxSignal_inPixel"]
PREV = ["MaxSignal_inPixel", "frameTime", "saturation_time", "darkcurrent_noise", "read_noise", "total_noise"]


def max_signal(ctx, SIGNALS=SIGNALS, MAXES=MAXES, more=(), name="maximum signal"):
    from ..lib import StrCol
    m = M.Model(3)
    m.exact["target"] = {"cls": "Target"}
    M.table_rules(m, "target.table", 3, extra=list(SIGNALS) + list(MAXES) + ["starFlux"] + list(more))
    previous(m, more, 3)
    m.exact["target.table[chName]"] = {"value": StrCol(["chA", "chB", "chB"])}
    r = ctx.run(name, TR, m, lambda I, st: I.call(task(I, "EstimateMaxSignal", st), [], {"target": I.region("target")}, st))
    if r is None:
        return
    I, st, v = r
    tab = I.getattr(v, "table", st)
    want = X.ZERO
    for c in MAXES:
        want = X.add(want, M_num(I, "target.table[%s]" % c))
    ctx.eqcol(I, st, tab, "MaxSignal_inPixel", want, TR)
    for c in list(SIGNALS) + list(MAXES):
        ctx.eqcol(I, st, tab, c, M_num(I, "target.table[%s]" % c), TR)


ER = "exorad/tasks/noiseHandler.py EstimateNoise.execute"


def previous(m, more, rows):
    for c in more:
        if c.endswith("_noise"):
            m.exact["target.table[%s]" % c] = M.n("target.table[%s]" % c, rows, unit=X.ONE if c in ("darkcurrent_noise", "read_noise") else U("hr(1/2)"))


def whole(ctx, SIGNALS=SIGNALS, MAXES=MAXES, more=(), name="noise of all channels", floor=False):
    """the whole noise task on a table of two channels"""
    from ..lib import StrCol
    m = M.Model(3)
    m.exact["target"] = {"cls": "Target"}
    M.table_rules(m, "target.table", 3, extra=list(SIGNALS) + list(MAXES) + ["starFlux", "starSignal"] + list(more))
    previous(m, more, 3)
    m.exact["target.table[chName]"] = {"value": StrCol(["chA", "chB", "chB"])}
    m.exact["channels"] = {"keys": ["chA", "chB"], "dcls": "dict"}
    for c in ("chA", "chB"):
        q = "channels[%s]" % c
        m.exact[q] = {"cls": "Photometer" if c == "chA" else "Spectrometer"}
        d = q + ".description"
        m.exact[d] = {"keys": ["value", "detector", ("NoiseX",)] + (["customNoise"] if floor else []), "dcls": "OrderedDict"}
        m.exact[d + "[value]"] = {"str": c}
        m.exact[d + "[NoiseX][value]"] = M.n(d + "[NoiseX][value]", isq=False)
        m.exact[d + "[detector]"] = {"keys": [(k,) if k in ("frame_time", "multiaccumM") else k for k in DET], "dcls": "OrderedDict"}
        for k, u in DET.items():
            m.exact[d + "[detector][%s][value]" % k] = M.n(d + "[detector][%s][value]" % k, unit=None if u else X.ONE, kind="wide" if k == "freqNDR" else "num")
        m.exact[q + ".payload"] = {"keys": ["common"], "dcls": "dict"}
        m.exact[q + ".payload[common]"] = {"keys": ["wl_min"] + (["customNoise"] if floor else []), "dcls": "OrderedDict"}
        # a noise floor of the payload, and one of the channel
        for p, n in ((q + ".payload[common]", "gain"), (d, "floor")):
            p += "[customNoise]"
            m.exact[p] = {"keys": ["value", "name"], "dcls": "dict"}
            m.exact[p + "[name]"] = {"keys": ["value"]}
            m.exact[p + "[name][value]"] = {"str": n}
            m.exact[p + "[value]"] = M.n(p + "[value]", isq=False, kind="ppm")
    r = ctx.run(name, ER, m, lambda I, st: I.call(task(I, "EstimateNoise", st), [], {"target": I.region("target"), "channels": I.region("channels")}, st))
    if r is None:
        return
    I, st, v = r
    tab = I.getattr(v, "table", st)
    tot = X.ZERO
    for c in MAXES:
        tot = X.add(tot, M_num(I, "target.table[%s]" % c))
    ctx.eqcol(I, st, tab, "MaxSignal_inPixel", tot, ER)
    parts = {}
    for c, rows in (("chA", (0,)), ("chB", (1, 2))):
        d = "channels[%s].description" % c
        g = lambda k: M_num(I, d + "[detector][%s][value]" % k)
        at_ = lambda col: X.take(M_num(I, "target.table[%s]" % col), rows)
        sat = X.div(g("well_depth"), X.take(tot, rows))
        ft = X.ite(X.has(d + "[detector]", "frame_time"), g("frame_time"), X.mul(g("f_well_depth"), X.red("min", sat, "row")))
        nr = X.fn("floor", X.mul(ft, g("freqNDR")))
        nr = X.ite(X.cmp("lt", nr, K(2.0)), K(2.0), nr)
        mm = X.ite(X.has(d + "[detector]", "multiaccumM"), g("multiaccumM"), X.ONE)
        nn = X.add(X.mul(nr, nr), nr)
        rg = mul(K(12.0), X.sub(nr, X.ONE), inv(nn), inv(mm))
        sg = mul(K(6.0), X.add(X.mul(nr, nr), X.ONE), inv(nn), K(0.2))
        var = X.ZERO
        for s in SIGNALS:
            e = sqrt(mul(sg, at_(s), CT))
            parts.setdefault(s + "_noise", []).append(e)
            var = X.add(var, X.mul(e, e))
        dark2 = mul(sg, at_("WindowSize"), g("dark_current"), CT)
        read2 = mul(rg, g("read_noise"), g("read_noise"), at_("WindowSize"), inv(ft))
        nx = X.ite(X.has(d, "NoiseX"), M_num(I, d + "[NoiseX][value]"), X.ZERO)
        t = X.div(sqrt(X.add(X.add(dark2, X.mul(X.add(X.ONE, nx), var)), read2)), at_("star_signal_inAperture"))
        for p, n in ((("channels[%s].payload[common]" % c, "gain"), (d, "floor")) if floor else ()):
            e = mul(K(1e-6), M_num(I, p + "[customNoise][value]"), U("hr(1/2)"))
            parts.setdefault(n + "_noise", []).append(X.full(e, rows=len(rows)))
            t = sqrt(X.add(X.mul(t, t), X.mul(e, e)))
        parts.setdefault("total_noise", []).append(t)
        parts.setdefault("frameTime", []).append(X.full(ft, rows=len(rows)))
        parts.setdefault("saturation_time", []).append(sat)
    for c, es in parts.items():
        ctx.eqcol(I, st, tab, c, X.rowcat([e if e.rows else X.full(e, rows=1) for e in es]), ER)
    for c in list(SIGNALS) + list(MAXES) + ["starFlux", "WindowSize", "QE", "TR"]:
        ctx.eqcol(I, st, tab, c, M_num(I, "target.table[%s]" % c), ER)


DET = {"well_depth": "ct", "frame_time": "s", "f_well_depth": "", "freqNDR": "Hz", "multiaccumM": "", "dark_current": "ct s-1", "read_noise": "ct"}


def estimated(ctx):
    max_signal(ctx)
    whole(ctx)
    whole(ctx, floor=True, name="noise of channels with noise floors of their own")
    again = PREV + [s + "_noise" for s in SIGNALS]
    max_signal(ctx, more=again, name="maximum signal estimated again")
    whole(ctx, more=again, name="noise estimated again")


def accounting(ctx):
    max_signal(ctx)
    whole(ctx)
    whole(ctx, floor=True, name="noise of channels with noise floors of their own")
    max_signal(ctx, ODD, ODDMAX, name="maximum signal of sources with odd names")
    whole(ctx, ODD, ODDMAX, name="noise of sources with odd names")
    more = PREV + [s + "_noise" for s in SIGNALS]
    max_signal(ctx, more=more, name="maximum signal estimated again")
    whole(ctx, more=more, name="noise estimated again")
