"""Contracts of the numerical kernels that are taken as they are (see DESIGN.md)."""
import ast

from . import expr as X
from .units import parse_unit


def _args(fn, args, kw, names, defaults=()):
    vals = dict(zip(names, args))
    vals.update(kw)
    return [vals.get(n) for n in names]


def rebin(lib, fn, args, kw, st, node):
    from .interp import Tup, Interp1, Num
    I = lib.I
    x, xp, fp = _args(fn, args, kw, ("x", "xp", "fp"))
    nx, nxp, nf = lib.N(x, st), lib.N(xp, st), lib.N(fp, st)
    if nx is None or nxp is None or nf is None:
        return I.unk("rebin", node)
    u = nf.unit if nf.isq is not False and nf.unit is not None else X.ONE
    e = _resample(lib, nxp.e, nf.e, nx.e)
    if e is None:
        r = lib.interp_eval(Interp1(xp, I.cell(st, nf.but(e=lib.raw(nf), unit=None, isq=False)), "linear", None), x, st, node)
        rn = lib.N(r, st)
        if rn is None:
            return r
        e = X.mul(rn.e, u)
    return Tup([x, I.cell(st, Num(e, u, True, nx.grid))])


def _resample(lib, xp, fp, x):
    """a function of wavelength sampled at xp, at the wavelengths x (contract of rebin); None when it is not recognised as one"""
    c = X.gridcase(xp)
    if c is not None:
        a = _resample(lib, X.pick(xp, c, True), X.pick(fp, c, True), x)
        b = _resample(lib, X.pick(xp, c, False), X.pick(fp, c, False), x)
        return None if a is None or b is None else X.ite(c, a, b)
    s = lib.lamscale(xp)
    if s is not None:
        return X.at(fp, X.div(x, s))
    g = X.gridbase(xp)
    if g is None:
        return None
    try:
        return X.regrid(fp, g[0], X.div(x, g[1]))
    except X.NoSubst:
        return None


def planck(lib, fn, args, kw, st, node):
    from .interp import Num
    I = lib.I
    wl, T = _args(fn, args, kw, ("wl", "T"))
    a, b = lib.N(wl, st), lib.N(T, st)
    if a is None or b is None:
        return I.unk("planck", node)
    u = parse_unit("W m-2 um-1 sr-1")
    e = X.mul(X.opq("planck", a.e, b.e), u)
    return I.cell(st, Num(e, u, True, a.grid))


def omegapix(lib, fn, args, kw, st, node):
    from .interp import Num
    I = lib.I
    x, y = _args(fn, args, kw, ("Fnum_x", "Fnum_y"))
    a = lib.N(x, st)
    b = lib.N(y, st) if y is not None else None
    if a is None or (y is not None and b is None):
        return I.unk("OmegaPix", node)
    if b is None:
        be = a.e
    else:
        t = I.truth(y, st)
        be = X.ite(I.simp(t, st), b.e, a.e)
    lo = X.ite(X.cmp("lt", a.e, be), a.e, be)
    hi = X.ite(X.cmp("lt", a.e, be), be, a.e)
    u = X.atom("unit:sr")
    return I.cell(st, Num(X.mul(X.opq("OmegaPix", lo, hi), u), u, True))


def _opaque(name, unit=None, n=1, shapes=None):
    """an uninterpreted kernel: an arbitrary function of its arguments"""
    def f(lib, fn, args, kw, st, node):
        from .interp import Num, Tup, Phi, StrV, Ref
        I = lib.I
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        for p, d in list(zip(reversed(a.args), reversed(a.defaults))) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if isinstance(d, ast.Constant):
                vals[p.arg] = d.value
        names += [p.arg for p in a.kwonlyargs]
        vals.update(zip(names, args))
        vals.update(kw)
        es = []
        for k in names:
            if k not in vals or k in ("plot",):
                continue
            es += _flat(lib, vals[k], st, k)
        outs = []
        for i in range(n):
            e = X.opq("%s.%d" % (name, i), *es) if n > 1 else X.opq(name, *es)
            if shapes and shapes[i] == "fpa":
                e = X.mk("opq", "%s.%d" % (name, i), *es, rows=None, wl=False)
            outs.append(I.cell(st, Num(e, unit, unit is not None and True)))
        return Tup(outs) if n > 1 else outs[0]
    return f


def _flat(lib, v, st, k):
    from .interp import Num, Tup, Phi, StrV, Ref
    if v is None:
        return [k + "=None"]
    if isinstance(v, (str, bool)):
        return ["%s=%s" % (k, v)]
    if isinstance(v, (int, float)):
        return [X.K(v)]
    if isinstance(v, StrV):
        return ["%s=%r" % (k, v.parts)]
    if isinstance(v, Phi):
        n = lib.N(v, st)
        if n is not None and not n.e.has_unk:
            return [n.e]
        return [X.ite(v.cond, X.opq("arg", *_flat(lib, v.a, st, k)), X.opq("arg", *_flat(lib, v.b, st, k)))]
    if isinstance(v, Ref) and lib.I.o(v).kind == "reg" and lib.I.rd(st, (v.oid, "num"), None) is None:
        return ["%s=%s" % (k, lib.I.o(v).path)]
    n = lib.N(v, st)
    if n is not None:
        return [n.e]
    return ["%s=%r" % (k, v)]


def probe_objects(lib, fn, args, kw, st, node):
    """whether an array holds objects (asked by the stand-in files)"""
    from .interp import Ref, Num
    from .lib import StrCol
    v = args[0]
    return Num(X.K(isinstance(v, StrCol) and bool(v.items) and all(isinstance(x, Ref) for x in v.items)), None, False)


def rank(lib, fn, args, kw, st, node):
    """the process is the first, or alone"""
    from .interp import Num
    return Num(X.ZERO, None, False)


def default():
    return {
        "probe_objects": probe_objects,
        "ext:mpi4py.MPI.COMM_WORLD.Get_rank": rank,
        "rebin": rebin, "planck": planck, "OmegaPix": omegapix,
        "binnedPSF": _opaque("binnedPSF", n=3), "paosPSF": _opaque("paosPSF", n=3), "pixel_based_psf": _opaque("pixelPSF", n=3),
        "find_aperture_radius": _opaque("apertureRadius"),
    }
