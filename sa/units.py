"""Unit expressions."""
import math
import re
from . import expr as X

CANON = {"micron": "um", "micrometer": "um", "second": "s", "hour": "hr", "h": "hr", "Watt": "W", "watt": "W", "count": "ct", "Kelvin": "K", "Joule": "J",
         "minute": "min", "d": "day", "angstrom": "AA", "Angstrom": "AA", "pixel": "pix", "ph": "photon", "AU": "au", "L_sun": "Lsun", "solLum": "Lsun", "meter": "m",
         "kilogram": "kg", "steradian": "sr", "radian": "rad", "degree": "deg", "nanometer": "nm", "millimeter": "mm", "centimeter": "cm", "R_sun": "Rsun", "M_sun": "Msun", "arcsecond": "arcsec",
         "electron": "electron", "hertz": "Hz", "joule": "J", "R_jup": "Rjup", "R_jupiter": "Rjup", "jupiterRad": "Rjup", "M_jup": "Mjup", "M_jupiter": "Mjup", "jupiterMass": "Mjup",
         "R_earth": "Rearth", "earthRad": "Rearth", "M_earth": "Mearth", "earthMass": "Mearth", "solRad": "Rsun", "solMass": "Msun"}


def no_unit(name):
    """a single word which is not the name of a unit"""
    return re.fullmatch(r"[A-Za-z_]+", name.strip()) is not None and name.strip() not in ("percent", "pct") and X.unit_dim(CANON.get(name.strip(), name.strip())) is None


def unit_atom(name):
    name = CANON.get(name, name)
    if name in ("dimensionless_unscaled", "one", ""):
        return X.ONE
    if X.unit_dim(name) is None:
        return None
    return X.atom("unit:" + name)


_tok = re.compile(r"\s*(\*\*|\^|[()*/.]|[A-Za-z_]+|[+-]?\d+(?:\.\d*)?|\S)")


def parse_unit(s):
    s = s.strip()
    if s in ("", "dimensionless"):
        return X.ONE
    toks = _tok.findall(s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def factor():
        t = nxt()
        if t == "(":
            e = product()
            if peek() == ")":
                nxt()
        elif t in ("%", "percent", "pct"):
            e = X.K(0.01)
        elif re.match(r"[A-Za-z_]", t):
            if t == "sqrt" and peek() == "(":
                nxt()
                e = product()
                nxt()
                e = X.pw(e, X.K(0.5))
            else:
                e = unit_atom(t)
                if e is None:
                    raise ValueError(t)
        elif re.match(r"[+-]?\d", t):
            e = X.K(float(t))
        else:
            raise ValueError(t)
        while True:
            p = peek()
            if p in ("**", "^"):
                nxt()
                e = X.pw(e, X.K(expo()))
            elif p is not None and re.match(r"[+-]?\d", p):
                e = X.pw(e, X.K(float(nxt())))
            elif p == "(" and pos[0] + 1 < len(toks) and re.match(r"[+-]?\d", toks[pos[0] + 1]):
                e = X.pw(e, X.K(expo()))
            else:
                return e

    def expo():
        t = nxt()
        if t == "(":
            v = float(nxt())
            if peek() == "/":
                nxt()
                v /= float(nxt())
            nxt()
            return v
        return float(t)

    def product():
        e = factor()
        while True:
            p = peek()
            if p is None or p == ")":
                return e
            if p == "/":
                nxt()
                e = X.div(e, factor())
            elif p in ("*", "."):
                nxt()
                e = X.mul(e, factor())
            else:
                e = X.mul(e, factor())

    try:
        return product()
    except (ValueError, IndexError):
        return X.unk("unit %r" % s)


_V = [X.Val(901), X.Val(902)]


def closed(e):
    return all(l.op == "atom" for l in X.leaves(e))


def same_unit(a, b):
    """True/False, or None when it cannot be decided"""
    if a is b:
        return True
    if not (closed(a) and closed(b)):
        return None
    return all(X.same(v.ev(a), v.ev(b)) for v in _V)


def si_unit(u):
    """product of SI base units with the dimension of u, when it is closed"""
    d = dims(u, True)
    if d is None:
        return X.mk("opq", "siunit", u)
    e = X.ONE
    for b, p in sorted(d.items()):
        if abs(p) > 1e-9:
            e = X.mul(e, X.pw(X.atom("unit:" + b), X.K(p)))
    return e


# the documented dimension of the configuration's entries, used where a value is reduced to SI base units
DOCUMENTED = {"wl_min": "um", "wl_max": "um", "cut_off": "um", "delta_pix": "um", "width": "um", "Wavelength": "um", "LeftBinEdge": "um", "RightBinEdge": "um",
              "well_depth": "ct", "read_noise": "ct", "f_well_depth": "", "freqNDR": "Hz", "frame_time": "s", "multiaccumM": "", "dark_current": "ct s-1",
              "NoiseX": "", "qe": "", "Fnum_x": "", "Fnum_y": "", "Atel": "m2", "temperature": "K", "integration_time": "hr",
              "D": "pc", "R": "m", "M": "kg", "Teff": "K", "L": "W"}


def documented(path):
    import re
    ks = re.findall(r"\[([^\[\]]*)\]", path)
    ks = [k for k in ks if k != "value"]
    k = ks[-1] if ks and path.endswith("]") else path.rsplit(".", 1)[-1]
    return parse_unit(DOCUMENTED[k]) if k in DOCUMENTED else None


def dims(u, doc=False):
    if u.op == "k":
        return {}
    if u.op == "atom":
        n = u.args[0]
        t = X.unit_dim(n[5:]) if n.startswith("unit:") else None
        return dict(t[1]) if t else None
    if u.op == "uof" and doc:
        t = documented(u.args[0])
        return None if t is None else dims(t)
    if u.op == "ite" and doc:
        a, b = dims(u.args[1], doc), dims(u.args[2], doc)
        return a if a is not None and a == b else None
    if u.op == "mul":
        a, b = dims(u.args[0], doc), dims(u.args[1], doc)
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if abs(v) > 1e-9}
    if u.op == "pow" and u.args[1].op == "k":
        a = dims(u.args[0], doc)
        return None if a is None else {k: v * u.args[1].args[0] for k, v in a.items()}
    return None
