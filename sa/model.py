"""Shapes of the inputs of the analysed functions: which object sits under
which path, which arrays run along the wavelength axis, which are per channel.
These are the public data structures of the package (channel table columns,
SEDs, payload dictionaries); nothing here describes how a function works."""
import re

from . import expr as X
from .units import parse_unit

UM = X.atom("unit:um")


def n(path, rows=None, wl=False, unit=None, isq=True, grid=None, kind="num"):
    from .interp import Num
    if isinstance(unit, str):
        unit = parse_unit(unit)
    if unit is None and isq:
        unit = X.uof(path)
    return {"num": Num(X.var(path, rows=rows, wl=wl, kind=kind), unit if isq else None, isq, grid)}


def lamq(grid):
    from .interp import Num
    return {"num": Num(X.LAM, UM, True, grid)}


class Model:
    """hints by exact path, then by rule; rules see the match"""

    def __init__(self, rows=1, extra=None):
        self.rows = rows
        self.exact = {}
        self.rules = []
        if extra:
            extra(self)

    def set(self, path, h):
        self.exact[path] = h
        return self

    def rule(self, rx, h):
        self.rules.append((re.compile(rx), h))
        return self

    def __call__(self, p):
        if p in self.exact:
            h = self.exact[p]
            return h(p) if callable(h) else h
        for rx, h in self.rules:
            m = rx.fullmatch(p)
            if m:
                return h(m) if callable(h) else h
        return None


COLS = ["chName", "Wavelength", "Bandwidth", "LeftBinEdge", "RightBinEdge", "QE", "WindowSize", "TR"]


def table_rules(m, path, rows, cols=None, extra=()):
    """channel table"""
    q = re.escape(path)
    m.exact[path] = {"table": list(cols or COLS) + list(extra)}
    lo = "edge_lo" if rows and rows > 1 else "lam_lo"
    hi = "edge_hi" if rows and rows > 1 else "lam_hi"
    m.exact[path + "[Wavelength]"] = n(path + "[Wavelength]", rows, unit="um", kind="lam")
    m.exact[path + "[Bandwidth]"] = n(path + "[Bandwidth]", rows, unit="um")
    m.exact[path + "[LeftBinEdge]"] = n(path + "[LeftBinEdge]", rows, unit="um", kind=lo)
    m.exact[path + "[RightBinEdge]"] = n(path + "[RightBinEdge]", rows, unit="um", kind=hi)
    for c in ("QE", "TR", "WindowSize"):
        m.exact["%s[%s]" % (path, c)] = n("%s[%s]" % (path, c), rows, isq=False)
    m.rule(q + r"\[(.*(?:[sS]ignal|Flux|signal_inAperture|inPixel).*)\]", lambda k: n(k.group(0), rows, unit="ct s-1"))
    m.rule(q + r"\[chName\]", lambda k: {})
    return m


def signal_rules(m, path, cls="Signal", grid=None, unit=None):
    m.exact[path] = {"cls": cls}
    m.exact[path + ".wl_grid"] = lamq(grid or path)
    m.exact[path + ".data"] = n(path + ".data", wl=True, grid=grid or path, unit=unit)
    return m


def stored_signal(m, path, grid=None):
    """a signal stored as a dictionary: {'wl_grid': {'value', 'unit'}, 'data': {...}}"""
    from .interp import Num
    g = grid or path
    m.exact[path] = {"keys": ["wl_grid", "data"]}
    m.exact[path + "[wl_grid]"] = {"keys": ["value", "unit"]}
    m.exact[path + "[data]"] = {"keys": ["value", "unit"]}
    m.exact[path + "[wl_grid][value]"] = {"num": Num(X.div(X.LAM, UM), None, False, grid=g)}
    m.exact[path + "[wl_grid][unit]"] = {"str": "um"}
    m.exact[path + "[data][value]"] = {"num": Num(X.var(path, wl=True), None, False, grid=g)}
    m.exact[path + "[data][unit]"] = {"str": ""}
    return m


def instrument(m, cls, rows):
    m.exact["self"] = {"cls": cls}
    table_rules(m, "self.table", rows)
    for s in ("qe_data", "transmission_data", "gain_prf_data"):
        stored_signal(m, "self.built_instr[%s]" % s)
    m.exact["self.built_instr[wl_pix_center]"] = lamq("pix")
    m.exact["self.built_instr[pixel_bandwidth]"] = n("pixbw", wl=True, unit="um", grid="pix")
    m.rule(r"self\.(?:payload|description)\[.*\]\[(wl_min|wl_max|cut_off)\]\[value\]", lambda k: n(k.group(0), kind="lam"))
    m.rule(r"self\.description\[(wl_min|wl_max)\]\[value\]", lambda k: n(k.group(0), kind="lam"))
    return m


def target(m):
    m.exact["target"] = {"cls": "Target", "has": {"skyTransmission": None}}
    m.exact["target.star"] = {"cls": "Star"}
    signal_rules(m, "target.star.sed", "Sed", "sed", "W m-2 um-1")
    signal_rules(m, "target.skyTransmission", "Signal", "sky")
    m.exact["target.skyTransmission.data"] = n("target.skyTransmission.data", wl=True, isq=True, unit=X.ONE, grid="sky")
    return m
