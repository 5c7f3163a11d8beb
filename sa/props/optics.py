"""C07: the chain of optical elements of a channel."""
from .. import expr as X
from .. import model as M
from .stellar import M_num, mul, CT, U, row, FORCE, outside, boolnum, H, C
from .diffuse import inv, law, omega_pix

K = X.K
PAY, DESC = "self.payload", "self.description"
OE = "[optics][opticalElement]"


def several(base, names):
    return [(base + OE + "[%s]" % n, n) for n in names]


# elements crossed by the light, in order; the slit is the first element of the channel
FULL = several(PAY, ["m1", "m2"]) + several(DESC, ["s1", "d1"])
SAME = several(PAY, ["m1", "d1"]) + several(DESC, ["m1", "d1"])
THRICE = several(PAY, ["m1", "m1_2"]) + several(DESC, ["m1", "d1"])
ONE = [(PAY + OE, "m1")]
OWN = [(DESC + OE, "s1")]
TYPES = {"m1_2": ["surface", "optics box"], "m1": ["surface", "optics box"], "m2": ["surface", "optics box", "detector box"], "s1": ["slit", "surface"], "d1": ["surface", "detector box", "optics box"]}


def setup(cls, rows, els):
    m = M.Model(rows)
    M.instrument(m, cls, rows)
    for base in (PAY, DESC):
        names = [n for p, n in els if p.startswith(base + OE + "[")]
        there = any(p.startswith(base + OE) for p, n in els)
        m.exact[base] = {"dcls": "OrderedDict"}
        m.exact[base + "[optics]"] = {"keys": (["opticalElement"] if there else []) + ["Atel", "ForceChannelWlEdge"], "dcls": "dict"}
        m.exact[base + OE] = {"keys": names, "dcls": "OrderedDict"}
    for p, n in els:
        m.exact[p] = {"keys": ["value", "type", "width"] + [(k,) for k in ("temperature", "transmission", "emissivity", "solid_angle")], "dcls": "dict"}
        m.exact[p + "[value]"] = {"str": n}
        m.exact[p + "[temperature][value]"] = M.n(p + "[temperature][value]", unit="K")
        m.exact[p + "[solid_angle][value]"] = M.n(p + "[solid_angle][value]", kind="nonneg0")
        m.exact[p + "[width][value]"] = M.n(p + "[width][value]")
        for k in ("transmission", "emissivity"):
            m.exact["%s[%s][value]" % (p, k)] = M.n("%s[%s][value]" % (p, k), isq=False)
        for k in ("type", "width", "temperature", "transmission", "emissivity", "solid_angle"):
            m.exact["%s[%s]" % (p, k)] = {"keys": ["value"]}
    m.exact["self.built_instr[window_spatial_width]"] = M.n("self.built_instr[window_spatial_width]", rows, isq=False)
    m.exact["self.built_instr[window_size_px]"] = M.n("self.built_instr[window_size_px]", rows, isq=False)
    m.exact["self.built_instr"] = {"keys": ["qe_data", "window_spatial_width", "window_size_px", "wl_pix_center", "pixel_bandwidth"], "dcls": "dict"}
    lo, hi = (m.exact["self.table[%s]" % c]["num"].e for c in ("LeftBinEdge", "RightBinEdge"))
    from ..interp import Num
    m.exact["self.table[Wavelength]"] = {"num": Num(mul(K(0.5), X.add(lo, hi)), M.UM, True)}
    m.exact["self.table"] = {"table": [c for c in M.COLS if c != "TR"]}
    return m


def is_type(p, t):
    return X.eqs(p + "[type][value]", t)


def tau(p):
    return X.ite(X.has(p, "transmission"), X.var(p + "[transmission][value]"), X.ONE)


def eps(p):
    return X.ite(X.has(p, "emissivity"), X.var(p + "[emissivity][value]"), boolnum(is_type(p, "detector box")))


def solid(I, p):
    """solid angle under which a pixel sees the element"""
    pi = mul(K(3.141592653589793), U("sr"))
    om = omega_pix(I)
    return X.ite(X.has(p, "solid_angle"), M_num(I, p + "[solid_angle][value]"),
                 X.ite(is_type(p, "detector box"), pi, X.ite(is_type(p, "optics box"), X.sub(pi, om), om)))


def within(I, lam):
    """within the range of the detector"""
    lo, hi = (M_num(I, "self.description[detector][%s][value]" % k) for k in ("wl_min", "cut_off"))
    return X.AND(X.cmp("le", lo, lam), X.cmp("le", lam, hi))


def contributions(I, rows, els, slitted, grid=None):
    """[(name, presence, signal, max signal)]"""
    out = []
    for i, (p, n) in enumerate(els):
        u = U("W m-2 um-1 sr-1")
        rad = mul(eps(p), X.opq("planck", X.LAM, X.var(p + "[temperature][value]")), u)
        slit = X.FALSE
        for q, _ in els[i + 1:]:
            rad = X.mul(rad, tau(q))
            slit = X.OR(slit, is_type(q, "slit"))
        sw = X.var(slitted + "[width][value]")
        s, mx = law(I, rad, rows, omega=X.ite(slit, omega_pix(I), solid(I, p)), slit=slit, slit_width=sw, grid=grid, inside=within(I, X.LAM))
        out.append((n, X.has(p, "temperature"), s, mx))
    return out


def keys(els):
    """names under which the elements are kept: a name already taken gets a number"""
    out = []
    for p, n in els:
        k, i = n, 1
        while k in out:
            i += 1
            k = "%s_%d" % (n, i)
        out.append(k)
    return out


def emission(els, i):
    """what an element emits, as it reaches the detector"""
    p = els[i][0]
    rad = mul(eps(p), X.opq("planck", X.LAM, X.var(p + "[temperature][value]")), U("W m-2 um-1 sr-1"))
    for q, _ in els[i + 1:]:
        rad = X.mul(rad, tau(q))
    return rad


def kept(ctx, I, st, o, els, cs, CASES, SPEC, where, tag, grid):
    """the tables of the single elements that the channel keeps"""
    def tab(k):
        return I.lib.getitem(o, k, st, None)
    names = keys(els)
    for k, (p, n) in zip(names, els):
        ctx.eqcol(I, st, tab("transmission_table"), k, tau(p), where, spec=SPEC, label="of the transmissions, " + tag)
    for i, (k, (p, n)) in enumerate(zip(names, els)):
        there = cs[i][1]
        on = dict(SPEC, force=dict(SPEC.get("force", {}), **{"has(%s,temperature)" % p: True}))
        ctx.eqcol(I, st, tab("radiance_table"), k, X.at(emission(els, i), grid), where, cond=there, spec=on, pre=there, label="of the radiances, " + tag)
    for label, spec in CASES[:2]:
        for k, (n, there, s, t) in zip(names, cs):
            t1, t2 = "of the signals, %s, %s" % (label, tag), "of the largest signals, %s, %s" % (label, tag)
            ctx.eqcol(I, st, tab("signal_table"), k + " signal", s, where, cond=there, spec=dict(spec), pre=there, label=t1)
            ctx.eqcol(I, st, tab("max_signal_per_pixel"), k, t, where, cond=there, spec=dict(spec), pre=there, label=t2)


def cases(els, slitted):
    strs = {p + "[type][value]": TYPES[n] for p, n in els}
    strs[slitted + "[type][value]"] = ["slit", "surface"]
    base = {"noties": True, "strs": strs}
    out = [("without a slit", dict(base, strs=dict(strs, **{slitted + "[type][value]": ["surface"]})))]
    # how a custom solid angle or a box in front of a slit is seen through it is left open
    k = [p for p, n in els].index(slitted) if slitted in [p for p, n in els] else None
    if k is None:
        return base, out
    front = [p for p, n in els[:k]]
    behind = dict(base, strs=dict(strs, **dict({p + "[type][value]": ["surface"] for p in front}, **{slitted + "[type][value]": ["slit"]})),
                  force={"has(%s,solid_angle)" % p: False for p in front})
    out.append(("with a slit", behind))
    for p, n in els[:k + 1]:
        out.append(("with a slit, only %s emits" % n, dict(behind, force=dict(behind["force"], **{"has(%s,temperature)" % q: q == p for q, _ in els}))))
    return base, out


def chain_of(ctx, cls, rows, els, slitted, tag, twice=False):
    where = "exorad/models/instruments/instrument.py %s.build_optical_path" % cls
    m = setup(cls, rows, els)
    seen = []

    def f(I, st):
        s = I.region("self")
        seen.append(s)
        t = I.getattr(s, "table", st)
        I.call(I.getattr(s, "build_optical_path", st), [], {}, st)
        if not twice:
            return I.getattr(s, "table", st)
        # the signals of the same path estimated once more
        return I.call(I.getattr(I.getattr(s, "opticalPath", st), "compute_signal", st), [t, I.getattr(s, "built_instr", st)], {}, st)
    SPEC, CASES = cases(els, slitted)
    r = ctx.run("%s optical path, %s" % (cls, tag), where, m, f)
    if r is None:
        return
    I, st, v = r
    b = I.getattr(seen[-1], "built_instr", st)

    def item(*ks):
        x = b
        for k in ks:
            x = I.lib.getitem(x, k, st, None)
        return x
    # the wavelengths at which the tool samples the optical path
    grid = X.mul(I.num(item("transmission_data", "wl_grid", "value"), st).e, M.UM)
    g = X.gridbase(grid)
    if g is not None:
        ends = X.gridends(g[0])
        for e, k in zip(ends, ("wl_min", "cut_off")):
            ctx.eq("sampled range: %s, %s" % (k, tag), where, X.mul(e, g[1]), M_num(I, "self.description[detector][%s][value]" % k))
    cs = contributions(I, rows, els, slitted, grid)
    zero = X.full(X.ZERO, rows=rows)
    tot, mx = zero, zero
    for n, there, s, t in cs:
        tot = X.add(tot, X.ite(there, s, X.ZERO))
        mx = X.add(mx, X.ite(there, t, X.ZERO))
    for label, spec in CASES:
        for col, want in (("instrument_signal", tot), ("instrument_MaxSignal_inPixel", mx)):
            ctx.eqcol(I, st, v, col, want, where, spec=spec, label=label + ", " + tag)
    if twice:
        return
    total = X.ONE
    for p, _ in els:
        total = X.mul(total, tau(p))
    wl = M_num(I, "self.table[Wavelength]")
    want = X.ite(X.AND(FORCE, outside(I, wl)), X.ZERO, X.ite(within(I, wl), total, X.ZERO))
    ctx.eqcol(I, st, v, "TR", want, where, spec=SPEC, label=tag)
    kept(ctx, I, st, item("optical_path"), els, cs, CASES, SPEC, where, tag, grid)
    # the transmission kept for the propagation of light
    t = item("transmission_data", "data", "value")
    want = X.ite(X.AND(FORCE, outside(I, grid)), X.ZERO, total)
    ctx.eq("transmission of the channel, " + tag, where, I.num(t, st), want, spec=SPEC)


def chain(ctx):
    for cls, rows in (("Photometer", 1), ("Spectrometer", 2)):
        chain_of(ctx, cls, rows, FULL, FULL[2][0], "two common elements and two of the channel")
        chain_of(ctx, cls, rows, SAME, SAME[2][0], "common elements and elements of the channel sharing their names")
        chain_of(ctx, cls, rows, FULL, FULL[2][0], "signals estimated a second time", twice=True)
    chain_of(ctx, "Photometer", 1, THRICE, THRICE[2][0], "a common element whose name is the one a repeated name would get")
    chain_of(ctx, "Photometer", 1, ONE, ONE[0][0], "one common element")
    chain_of(ctx, "Spectrometer", 2, OWN, OWN[0][0], "one element of the channel")


PW = "exorad/models/optics/opticalPath.py "


def path(I, st, d, wl):
    from ..interp import ClsV
    from ..repo import Broken
    c = I.repo.find_class("OpticalPath")
    if c is None:
        raise Broken("class OpticalPath is gone")
    return I.call(ClsV(c), [], {"description": d, "wl": wl}, st)


def elements(m, base, names):
    m.exact[base] = {"keys": ["optics", "detector"], "dcls": "OrderedDict"}
    m.exact[base + "[optics]"] = {"keys": ["opticalElement"], "dcls": "dict"}
    m.exact[base + OE] = {"keys": names, "dcls": "OrderedDict"}
    for n in names:
        p = base + OE + "[%s]" % n
        m.exact[p] = {"keys": ["value", "type", "transmission"], "dcls": "dict"}
        m.exact[p + "[value]"] = {"str": n}
        for k in ("type", "transmission"):
            m.exact["%s[%s]" % (p, k)] = {"keys": ["value"]}
        m.exact[p + "[type][value]"] = {"str": "surface"}
        m.exact[p + "[transmission][value]"] = M.n(p + "[transmission][value]", isq=False)
    m.exact[base + "[detector]"] = {"keys": ["wl_min", "cut_off"], "dcls": "dict"}
    for k in ("wl_min", "cut_off"):
        q = "%s[detector][%s][value]" % (base, k)
        m.exact[q] = M.n(q, kind="lam_lo" if k == "wl_min" else "lam_hi")


def alone(ctx):
    """an optical path by itself"""
    m = M.Model(1)
    elements(m, "a", ["m1", "d1"])
    elements(m, "b", ["m1", "d1"])
    m.exact["wl"] = M.lamq("wl")
    m.exact["one"] = M.n("one", 1, unit="um", kind="lam")
    m.exact["two"] = M.n("two", 2, unit="um", kind="lam")
    m.exact["T"] = M.n("T")
    m.exact["eps"] = M.n("eps", wl=True, isq=False, grid="wl")
    where = PW + "OpticalPath"
    r = ctx.run("path at one wavelength", where, m, lambda I, st: I.getattr(path(I, st, I.region("a"), I.region("one")), "wl", st))
    if r is not None:
        I, st, v = r
        grid = I.num(v, st)
        gb = X.gridbase(grid.e) if grid is not None else None
        if gb is None:
            ctx.res.und("wavelengths of a path at one wavelength", where, "not a grid")
        else:
            for e, k in zip(X.gridends(gb[0]), ("wl_min", "cut_off")):
                ctx.eq("a path at one wavelength is sampled over the detector: " + k, where, X.mul(e, gb[1]), M_num(I, "a[detector][%s][value]" % k))
    from .sampled import sampled
    sampled(ctx, "path at one wavelength", where, m, lambda I, st: I.getattr(path(I, st, I.region("a"), I.region("one")), "wl", st), lambda I, st, v: v)
    built = setup("Photometer", 1, ONE)

    def build(I, st):
        s = I.region("self")
        I.call(I.getattr(s, "build_optical_path", st), [], {}, st)
        return I.getattr(s, "built_instr", st)

    def kept_at(I, st, v):
        for k in ("transmission_data", "wl_grid", "value"):
            v = I.lib.getitem(v, k, st, None)
        return v
    sampled(ctx, "transmission of a channel", where, built, build, kept_at)
    r = ctx.run("path at two wavelengths", where, m, lambda I, st: I.getattr(path(I, st, I.region("a"), I.region("two")), "wl", st))
    if r is not None:
        I, st, v = r
        ctx.eq("a path at two wavelengths keeps them", where, I.num(v, st), M_num(I, "two"))

    def emitted(I, st):
        v = I.call(I.repo_fn("exorad.models.optics.opticalPath", "surface_radiance"), [I.region("wl"), I.region("T"), I.region("eps")], {}, st)
        return I.getattr(v, "data", st)
    r = ctx.run("radiance of a surface", PW + "surface_radiance", m, emitted)
    if r is not None:
        I, st, v = r
        want = mul(M_num(I, "eps"), X.opq("planck", X.LAM, M_num(I, "T")), U("W m-2 um-1 sr-1"))
        ctx.eq("radiance of a surface", PW + "surface_radiance", I.num(v, st), want)

    def before(I, st):
        a, b = (path(I, st, I.region(d), I.region("wl")) for d in "ab")
        I.call(I.getattr(b, "prepend_optical_elements", st), [I.getattr(a, "optical_element_dict", st)], {}, st)
        return I.lib.mklist(st, [I.lib.b_len([I.getattr(x, "optical_element_dict", st)], {}, st, None) for x in (a, b)])
    from .lists import compare
    text = "elements of a path after they went in front of another"
    compare(ctx, ctx.run(text, where, m, before), text, where, [K(2), K(4)])
