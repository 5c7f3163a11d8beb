"""C17: what an output file holds."""
from .. import expr as X
from .. import model as M
from . import logs

H5 = logs.PROBE + '''

import numpy as np
import astropy.units as u
from astropy.table import QTable
from exorad.output.hdf5 import HDF5Output, load
from exorad.models.signal import Signal, Sed


def probe_objects(data):
    return False


class Dataset:
    def __init__(self, value):
        self.value = value
        self.attrs = {}

    def __getitem__(self, k):
        return self.value

    @property
    def shape(self):
        return getattr(self.value, "shape", ())

    @property
    def ndim(self):
        return getattr(self.value, "ndim", 0)


class Group:
    def __init__(self):
        self.inside = {}
        self.attrs = {}

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if name in self.inside:
            raise ValueError("name already exists")
        if not isinstance(name, str):
            raise TypeError("name")
        if isinstance(dtype, str) and dtype == "O":
            raise TypeError("objects")
        if dtype is None and probe_objects(data):
            raise TypeError("objects")
        if isinstance(dtype, str) and dtype == "S64":
            data = [x[:64] for x in data]
        if isinstance(dtype, str) and dtype in ("f4", "<f4", "float32", "f", "f2", "float16", "single", "half"):
            data = np.asarray(data, dtype="f4")
        d = Dataset(data)
        self.inside[name] = d
        return d

    def create_group(self, name, *a, **k):
        if name in self.inside:
            raise ValueError("name already exists")
        if not isinstance(name, str):
            raise TypeError("name")
        g = Group()
        self.inside[name] = g
        return g

    def require_group(self, name):
        if name in self.inside:
            return self.inside[name]
        return self.create_group(name)

    def __getitem__(self, name):
        return self.inside[name]

    def __contains__(self, name):
        return name in self.inside

    def __iter__(self):
        return iter(self.inside.keys())

    def __len__(self):
        return len(self.inside)

    def keys(self):
        return self.inside.keys()

    def items(self):
        return self.inside.items()

    def values(self):
        return self.inside.values()

    def get(self, name, default=None):
        return self.inside.get(name, default)


class Disk:
    root = None
    safe = 1.0
    open = 0.0


DISK = Disk()


def anything(*a, **k):
    return "anything"


class Clock:
    year = 2026
    @classmethod
    def now(cls, *a, **k):
        return Clock()

    @classmethod
    def utcnow(cls, *a, **k):
        return Clock()

    @classmethod
    def today(cls, *a, **k):
        return Clock()

    def isoformat(self, *a, **k):
        return "today"

    def strftime(self, *a, **k):
        return "today"

    def __str__(self):
        return "today"


class File(Group):
    def __init__(self, name, mode="r", *a, **k):
        self.attrs = {}
        if mode in ("r", "r+") and DISK.root is None:
            raise FileNotFoundError(name)
        if mode in ("w-", "x") and DISK.root is not None:
            raise FileExistsError(name)
        if mode == "w" or DISK.root is None:
            DISK.root = {}
        self.inside = DISK.root
        self.mode = mode
        DISK.open = DISK.open + 1.0
        DISK.safe = 0.0

    def flush(self):
        DISK.safe = 1.0

    def close(self):
        DISK.open = DISK.open - 1.0
        DISK.safe = 1.0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def write(d, group="top", append=False):
    with HDF5Output("res.h5", append=append) as out:
        out.store_dictionary(d, group)


def val(*path):
    x = DISK.root
    for p in path:
        x = x[p] if isinstance(x, dict) else x.inside[p]
    return x.value
'''

LAWS = H5 + '''

def quantity(q, unit):
    return q * u.Unit(unit)


def plain(f, q, a, g):
    write({"num": f, "arr": a, "pair": (f, g), "list": [g, f], "whole": 3, "flag": True})
    return [val("top", "num"), val("top", "arr"), val("top", "pair")[0], val("top", "pair")[1], val("top", "list")[0], val("top", "list")[1], val("top", "whole")]


def measured(f, q, a, g):
    write({"q": q, "spectrum": a * u.ct})
    return [quantity(val("top", "q", "value"), val("top", "q", "unit")), quantity(val("top", "spectrum", "value"), val("top", "spectrum", "unit")), val("top", "q", "value"), val("top", "spectrum", "value"),
            1.0 if val("top", "spectrum", "unit") == str(u.ct) else 0.0]


def named_value(f, q, a, g):
    write({"wl_min": {"value": q, "unit": "um"}, "num": {"value": f}})
    return [val("top", "wl_min", "value") * q.unit, val("top", "num", "value")]


def nested(f, q, a, g):
    write({"one": {"two": {"q": q, "n": f}, "n": g}, "n": a})
    return [quantity(val("top", "one", "two", "q", "value"), val("top", "one", "two", "q", "unit")), val("top", "one", "two", "n"), val("top", "one", "n"), val("top", "n")]


def words(f, q, a, g):
    write({"text": "hello there", "kind": {"value": "Photometer"}})
    return 1.0 if val("top", "text") == "hello there" and val("top", "kind", "value") == "Photometer" else 0.0


def spectra(f, q, a, g):
    s = Sed(wl_grid=a * u.um, data=a * g * u.W / u.m ** 2 / u.um)
    write({"sed": s})
    return [quantity(val("top", "sed", "wl_grid", "value"), val("top", "sed", "wl_grid", "unit")), quantity(val("top", "sed", "data", "value"), val("top", "sed", "data", "unit"))]


class Holder:
    pass


def described(f, q, a, g):
    from exorad.utils.util import to_dict
    h = Holder()
    h.length = q
    h.value = f
    h.unit = "um"
    h.nothing = None
    h.series = a
    h.words = ["a", "b"]
    h.inner = Holder()
    h.inner.unit = "hr"
    h.inner.table = {"n": g, "q": a * u.ct}
    h.spec = Sed(wl_grid=a * u.um, data=a * g * u.W / u.m ** 2 / u.um)
    d = to_dict(h)
    s = d["spec"]
    t = h.spec.to_dict()
    held = 1.0 if d["unit"] == "um" and d["inner"]["unit"] == "hr" and "nothing" in d and d["nothing"] is None and d["words"][0] == "a" and d["words"][1] == "b" else 0.0
    return [quantity(d["length"]["value"], d["length"]["unit"]), d["value"], d["series"], d["inner"]["table"]["n"], quantity(d["inner"]["table"]["q"]["value"], d["inner"]["table"]["q"]["unit"]),
            quantity(s["wl_grid"]["value"], s["wl_grid"]["unit"]), quantity(s["data"]["value"], s["data"]["unit"]), quantity(t["wl_grid"]["value"], t["wl_grid"]["unit"]), quantity(t["data"]["value"], t["data"]["unit"]), held]


def classed(f, q, a, g):
    from exorad.utils.util import to_dict
    h = Holder()
    h.n = f
    h.inner = Holder()
    h.inner.n = g
    h.held = {"one": Holder(), "two": {"three": Holder()}}
    h.held["one"].q = q
    d = to_dict(h, "kind")
    e = to_dict(h)
    told = 1.0 if d["kind"] == "Holder" and d["inner"]["kind"] == "Holder" and d["held"]["one"]["kind"] == "Holder" and d["held"]["two"]["three"]["kind"] == "Holder" else 0.0
    bare = 1.0 if "kind" not in e and "kind" not in e["inner"] and "kind" not in e["held"]["one"] and "kind" not in d["held"] else 0.0
    return [d["n"], d["inner"]["n"], quantity(d["held"]["one"]["q"]["value"], d["held"]["one"]["q"]["unit"]), told, bare]


def back(f, q, a, g):
    write({"q": q, "n": f, "deep": {"q": a * u.ct, "n": g}})
    d = load(DISK.root["top"])
    return [d["q"]["value"], d["n"], d["deep"]["q"]["value"], d["deep"]["n"]]


def back_top(f, q, a, g):
    write({"value": f, "unit": "um", "m": g})
    d = load(DISK.root["top"])
    write({"value": g, "m": a})
    e = load(DISK.root["top"])
    return [d["value"], d["m"], e["value"], e["m"]]


def lists(f, q, a, g):
    with HDF5Output("res.h5") as out:
        t = out.create_group("top")
        t.write_array("x", [a, 2.0 * a])
        t.write_array("y", a)
        t.write_list("z", [f, g])
    z = val("top", "z")
    return [val("top", "x0"), val("top", "x1"), val("top", "y"), z[0], z[1], 1.0 * len(DISK.root["top"].inside)]


def sides(f, q, a, g):
    write({"sides": (q * 1.0, 2.0 * q.to(u.nm)), "spans": [a * u.ct, a * g * u.s], "one": [a * u.ct], "plain": [f, g]})
    w = [quantity(val("top", k, "value"), val("top", k, "unit")) for k in ("sides0", "sides1", "spans0", "spans1", "one0")]
    return w + [val("top", "plain")[0], val("top", "plain")[1]]


def informed(f, q, a, g):
    with HDF5Output("res.h5") as out:
        out.add_info({"n": f, "q": q}, "mine")
        out.add_info({"n": g}, "other")
    i = DISK.root["info"]
    return [val("info", "mine", "n"), val("info", "other", "n"), 1.0 * len(i.inside), 1.0 if "program_name" in i.inside["ExoRad"].inside else 0.0]


def foreign(f, q, a, g):
    DISK.root = {}
    write({"n": f}, "one", True)
    i = DISK.root["info"]
    return [val("one", "n"), 1.0 if i.inside["ExoRad"].inside["program_name"].value == "ExoRad2" else 0.0]


def groups(f, q, a, g):
    with HDF5Output("res.h5") as out:
        t = out.create_group("targets")
        t.store_dictionary({"n": f}, "one")
        t = out.create_group("targets")
        t.store_dictionary({"n": g}, "two")
        t.create_group("one").store_dictionary({"m": q})
    return [val("targets", "one", "n"), val("targets", "two", "n"), quantity(val("targets", "one", "m", "value"), val("targets", "one", "m", "unit"))]


def appended(f, q, a, g):
    write({"n": f}, "one")
    write({"n": g}, "two", True)
    write({"n": a}, "three", True)
    return [val("one", "n"), val("two", "n"), val("three", "n"), 1.0 * len(DISK.root)]


def begun(f, q, a, g):
    write({"n": f}, "one", True)
    info = DISK.root["info"].inside["ExoRad"]
    return [val("one", "n"), 1.0 if info.inside["file_name"].value == "res.h5" else 0.0]


def bare(f, q, a, g):
    write({"ratios": np.array([1.5, f]) * u.dimensionless_unscaled})
    write({"ratio": f * u.dimensionless_unscaled}, "one", True)
    r = val("top", "ratios", "value")
    return [val("one", "ratio", "value"), quantity(val("one", "ratio", "value"), val("one", "ratio", "unit")), r[0], r[1], 1.0 if val("top", "ratios", "unit") == str(u.dimensionless_unscaled) else 0.0]


def replaced(f, q, a, g):
    write({"n": f}, "one")
    write({"n": g}, "two")
    return [val("two", "n"), 0.0 if "one" in DISK.root else 1.0]


def signed(f, q, a, g):
    write({"n": f}, "one")
    write({"n": g}, "two", True)
    info = DISK.root["info"].inside["ExoRad"]
    return 1.0 if info.inside["file_name"].value == "res.h5" and info.inside["program_name"].value == "ExoRad2" else 0.0


def closed(f, q, a, g):
    write({"n": f}, "one")
    return [DISK.open, DISK.safe]


def interrupted(f, q, a, g):
    try:
        with HDF5Output("res.h5") as out:
            out.store_dictionary({"n": f}, "one")
            if g > 1.2:
                raise RuntimeError("interrupted")
            out.store_dictionary({"n": g}, "two")
    except RuntimeError:
        pass
    return [DISK.open, DISK.safe, val("one", "n")]


class Single(np.float32):
    x = 0.0


class Short(np.int16):
    x = 0.0


class Flag(np.bool_):
    x = 0.0


def others(f, q, a, g):
    s = Single()
    s.x = f
    i = Short()
    i.x = g
    b = Flag()
    b.x = f
    write({"s": s, "i": i, "b": b})
    return [val("top", "s").x, val("top", "i").x, val("top", "b").x]


def text(x):
    return x.decode("utf-8") if isinstance(x, bytes) else x


def letters(f, q, a, g):
    write({"names": ["\u03b1 Cen", "x" * 80, "HD 1"], "pair": ("one", "two"), "none": [], "wide": [" one two  ", "Three"], "line": " first\\n  Second "})
    w = val("top", "wide")
    if text(w[0]) != " one two  " or text(w[1]) != "Three" or text(val("top", "line")) != " first\\n  Second ":
        return 0.0
    n = val("top", "names")
    p = val("top", "pair")
    return 1.0 if text(n[0]) == "\u03b1 Cen" and text(n[1]) == "x" * 80 and text(n[2]) == "HD 1" and text(p[0]) == "one" and text(p[1]) == "two" else 0.0


def several(f, q, a, g):
    write({"rows": [{"n": f, "q": q}, {"n": g}], "after": g})
    return [val("top", "rows0", "n"), quantity(val("top", "rows0", "q", "value"), val("top", "rows0", "q", "unit")), val("top", "rows1", "n"), val("top", "after")]


class Odd:
    pass


def odd(f, q, a, g):
    write({"n": f, "odd": Odd()}, "one")
    return 1.0


def nothing(f, q, a, g):
    write({"n": f, "odd": {"deep": None}}, "one")
    return 1.0


def odd_closed(f, q, a, g):
    try:
        write({"n": f, "odd": Odd()}, "one")
    except ValueError:
        return [DISK.open, DISK.safe, val("one", "n")]
    return [-1.0, -1.0, -1.0]
'''
TABLES = H5 + '''
from exorad.models.target import Target
from exorad.models.instruments.instrument import Instrument
from exorad.utils.util import to_dict


class DType:
    def __init__(self, kind):
        self.kind = kind
        self.char = kind


class Info:
    def __init__(self, kind):
        self.dtype = DType(kind)


class Col:
    def __init__(self, value, unit=None, kind="f"):
        self.value = value
        self.data = value
        self.unit = unit
        self.info = Info(kind)
        self.dtype = self.info.dtype


class Tab:
    def __init__(self, cols, header="spec"):
        self.cols = cols.cols if isinstance(cols, Tab) else cols
        for k in self.cols:
            self.cols[k].name = k
        self.header = header
        self.meta = {"of": "nothing"}
        self.mixed = 0.0

    def keys(self):
        return [k for k in self.cols]

    @property
    def colnames(self):
        return [k for k in self.cols]

    @property
    def columns(self):
        return self.cols

    def itercols(self):
        return [self.cols[k] for k in self.cols]

    def __getitem__(self, k):
        return self.cols[k]

    def as_array(self, *a, **k):
        return {k: Col(self.cols[k].value, None, self.cols[k].info.dtype.kind) for k in self.cols}

    def copy(self, *a, **k):
        return Tab({k: Col(self.cols[k].value, self.cols[k].unit, self.cols[k].info.dtype.kind) for k in self.cols}, self.header)

    def convert_unicode_to_bytestring(self):
        for k in self.cols:
            if self.cols[k].info.dtype.kind == "U":
                self.cols[k].info = Info("S")


def same(t, *a, **k):
    return t


class Quiet:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def head(t, *a, **k):
    return ["header of " + t.header, "end"]


def array(x, *a, **k):
    return x if isinstance(x, (dict, Tab)) else np.asarray(x, *a, **k)


def mixins(t, *a, **k):
    t.mixed = t.mixed + 1.0
    return t


def heading(lines, *a, **k):
    lines = list(lines)
    if len(lines) != 2 or lines[0] != "header of spec" or lines[1] != "end":
        raise ValueError("not the header of the table")
    d = {"datatype": [{"name": "QE", "datatype": "float64"}, {"name": "Wavelength", "unit": "um", "description": "middle", "datatype": "float64"}, {"name": "chName", "datatype": "string"},
                      {"name": "noise", "unit": "hr(1/2)", "format": "%5.2f", "datatype": "float64"}]}
    if HEAD.meta:
        d["meta"] = {"star": "x", "n": 3.0}
        if HEAD.serial:
            d["meta"]["__serialized_columns__"] = {"Wavelength": 1}
    return d


class Head:
    meta = True
    serial = True


HEAD = Head()


def reread(f, q, a, g):
    write({"spec": makeit(f, q, a, g), "n": f, "deep": {"spec": makeit(g, q, a, f), "also": makeit(f, q, a, g)}})
    d = load(DISK.root["top"])
    out = [d["n"]]
    for t, x in ((d["spec"], f), (d["deep"]["spec"], g), (d["deep"]["also"], f)):
        if not isinstance(t, Tab):
            return [-1.0] * 28
        out = out + [cell(t["Wavelength"]), cell(t["noise"]), cell(t["QE"]), cell(t["chName"]), 1.0 * len(t.keys()), t.mixed]
        w, n, e = t["Wavelength"], t["noise"], t["QE"]
        ok = 1.0 if w.unit == "um" and n.unit == "hr(1/2)" and e.unit is None and w.description == "middle" and n.format == "%5.2f" else 0.0
        meta = 1.0 if t.meta["star"] == "x" and "__serialized_columns__" not in t.meta else 0.0
        out = out + [ok, meta, t.meta["n"]]
    return out


def bare(f, q, a, g):
    HEAD.meta = False
    write({"spec": makeit(f, q, a, g)})
    t = load(DISK.root["top"])["spec"]
    return [cell(t["Wavelength"]), 1.0 if t["Wavelength"].unit == "um" and t.meta["of"] == "nothing" else 0.0]


def cell(x):
    return x.value if isinstance(x, Col) else x


def txt(x):
    return x.decode("utf-8") if isinstance(x, bytes) else x


def makeit(f, q, a, g):
    return Tab({"Wavelength": Col(a * q.value, "um"), "noise": Col(a * g, u.hr ** 0.5), "QE": Col(a), "chName": Col(a * f, None, "U")})


def column(name, *path):
    where = path[:-1] + (path[-1] + "_to_group", name)
    x = DISK.root
    for p in where:
        x = x[p] if isinstance(x, dict) else x.inside[p]
    return [cell(x.inside["value"].value), x.inside["unit"].value if "unit" in x.inside else "none"]


def tabled(f, q, a, g):
    t = makeit(f, q, a, g)
    write({"spec": t, "after": f})
    w = column("Wavelength", "top", "spec")
    n = column("noise", "top", "spec")
    e = column("QE", "top", "spec")
    c = column("chName", "top", "spec")
    units = 1.0 if w[1] == "um" and n[1] == str(u.hr ** 0.5) and e[1] == "none" and c[1] == "none" else 0.0
    return [w[0], n[0], e[0], c[0], units, val("top", "after")]


def whole(f, q, a, g):
    t = makeit(f, q, a, g)
    write({"spec": t})
    kept = val("top", "spec")
    hd = [txt(x) for x in val("top", "spec.__table_column_meta__")]
    ok = 1.0 if hd[0] == "header of spec" and hd[1] == "end" and kept["chName"].info.dtype.kind != "U" else 0.0
    return [cell(kept["Wavelength"]), cell(kept["noise"]), cell(kept["QE"]), cell(kept["chName"]), ok]


def untouched(f, q, a, g):
    t = makeit(f, q, a, g)
    write({"spec": t})
    return [t.cols["chName"].value, 1.0 if t.cols["chName"].info.dtype.kind == "U" and len(t.cols) == 4 else 0.0]


def targets(f, q, a, g):
    one = Target()
    one.name = "HD 1"
    one.star = {"D": q, "Teff": {"value": g}}
    one.table = makeit(f, q, a, g)
    one.seen = f
    two = Target()
    two.name = "GJ 2"
    two.seen = g
    with HDF5Output("res.h5") as out:
        one.write(out)
        two.write(out)
    w = column("Wavelength", "targets", "HD 1", "table", "table")
    return [val("targets", "HD 1", "seen"), val("targets", "GJ 2", "seen"), w[0], val("targets", "HD 1", "star", "D", "value") * u.Unit(val("targets", "HD 1", "star", "D", "unit")), val("targets", "HD 1", "star", "Teff", "value"), 1.0 * len(DISK.root["targets"].inside)]


class Chan(Instrument):
    def __init__(self):
        self.set_log_name()

    def builder(self):
        pass

    def propagate_target(self, t):
        pass


def instruments(f, q, a, g):
    inst = Chan()
    inst.name = "Phot"
    inst.table = makeit(f, q, a, g)
    inst.description = {"detector": {"qe": {"value": q, "unit": "um"}}}
    inst.built_instr = {"AperturePrescription": {"c": a * u.ct}, "n": g}
    with HDF5Output("res.h5") as out:
        c = out.create_group("channels")
        inst.write(c)
    w = column("Wavelength", "channels", "Phot", "Phot")
    return [w[0], val("channels", "Phot", "description", "detector", "qe", "value") * q.unit, quantity(val("channels", "Phot", "built_instr", "AperturePrescription", "c", "value"), val("channels", "Phot", "built_instr", "AperturePrescription", "c", "unit")), val("channels", "Phot", "built_instr", "n")]


def quantity(q, unit):
    return q * u.Unit(unit)
'''
W = "exorad/output/hdf5/hdf5.py HDF5Output"
EXT = {"datetime.datetime": "Clock", "datetime.date": "Clock", "h5py.File": "File", "h5py.Group": "Group", "h5py.Dataset": "Dataset", "logging.getLogger": "getLogger", "h5py.string_dtype": "anything", "h5py.special_dtype": "anything"}

TEXT = {"astropy.table.Table": "Tab", "astropy.table.QTable": "Tab", "astropy.table.serialize.represent_mixins_as_columns": "same", "astropy.utils.data_info.serialize_context_as": "Quiet", "astropy.table.meta.get_yaml_from_table": "head", "astropy.table.meta.get_header_from_yaml": "heading", "numpy.array": "array",
        "astropy.table.serialize._construct_mixins_from_columns": "mixins", "h5py.File": "File"}


def model():
    from .stellar import U
    m = M.Model(1)
    m.exact["f"] = M.n("f", isq=False)
    m.exact["g"] = M.n("g", isq=False)
    m.exact["q"] = M.n("q", isq=True, unit=U("um"))
    m.exact["a"] = M.n("a", 3, isq=False)
    return m


def run(ctx, fn, text, src=LAWS, where=W, m=None, names="fqag", **k):
    repo = ctx.repo.probed(src, ext=dict(EXT, **k.get("ext", {})), methods=k.get("methods"), classes=k.get("classes"))
    return ctx.run(text, where, m or model(), lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [I.region(x) for x in names], {}, st), repo=repo), repo


def law(ctx, fn, text, want, **k):
    from .lists import compare
    compare(ctx, run(ctx, fn, text, **k)[0], text, k.get("where", W), want)


def v(n):
    return X.var(n, rows=3) if n == "a" else X.var(n)


def stored(ctx):
    from .stellar import U, mul
    f, g, a = v("f"), v("g"), v("a")
    q = v("q")
    ct = X.mul(a, U("ct"))
    law(ctx, "plain", "numbers", [f, a, f, g, g, f, X.K(3.0)])
    law(ctx, "measured", "quantities", [q, ct, X.div(q, U("um")), a, X.K(1.0)])
    law(ctx, "bare", "quantities without dimensions", [f, f, X.K(1.5), f, X.K(1.0)])
    law(ctx, "named_value", "values of a description", [q, f])
    law(ctx, "nested", "nested dictionaries", [q, f, g, a])
    law(ctx, "words", "texts", [X.K(1.0)])
    law(ctx, "spectra", "spectra", [X.mul(a, U("um")), X.mul(X.mul(a, g), U("W m-2 um-1"))])
    sp = [X.mul(a, U("um")), X.mul(X.mul(a, g), U("W m-2 um-1"))]
    law(ctx, "described", "objects turned to dictionaries", [q, f, a, g, ct] + sp + sp + [X.K(1.0)], where="exorad/utils/util.py to_dict")
    law(ctx, "classed", "objects and their classes turned to dictionaries", [f, g, q, X.K(1.0), X.K(1.0)], where="exorad/utils/util.py to_dict")
    law(ctx, "back", "a dictionary written and read back", [q, f, ct, g])
    law(ctx, "back_top", "a value written and read back", [X.mul(f, U("um")), g, g, a])
    law(ctx, "lists", "lists of arrays", [a, X.mul(X.K(2.0), a), a, f, g, X.K(4.0)])
    law(ctx, "sides", "lists of quantities", [q, X.mul(X.K(2.0), q), ct, mul(X.mul(a, g), U("s")), ct, f, g])
    law(ctx, "informed", "information added", [f, g, X.K(3.0), X.K(1.0)])
    law(ctx, "foreign", "additions to a file of another program", [f, X.K(1.0)])
    law(ctx, "groups", "groups written in more than one step", [f, g, q])
    law(ctx, "appended", "additions to a file", [f, g, a, X.K(4.0)])
    law(ctx, "begun", "additions to a new file", [f, X.K(1.0)])
    law(ctx, "replaced", "a file written anew", [g, X.K(1.0)])
    law(ctx, "signed", "information on the program", [X.K(1.0)])
    law(ctx, "closed", "a file that was written", [X.K(0.0), X.K(1.0)])
    law(ctx, "interrupted", "a file whose writing was interrupted", [X.K(0.0), X.K(1.0), f])
    law(ctx, "odd_closed", "a file given something it cannot hold", [X.K(0.0), X.K(1.0), f])
    law(ctx, "others", "numbers of other types", [f, g, f])
    law(ctx, "letters", "lists of texts", [X.K(1.0)])
    law(ctx, "several", "lists of dictionaries", [f, q, g, g])
    k = dict(src=TABLES, ext=TEXT)
    law(ctx, "tabled", "columns of a table", [X.mul(a, X.div(q, U("um"))), X.mul(a, g), a, X.mul(a, f), X.K(1.0), f], **k)
    law(ctx, "whole", "tables", [X.mul(a, X.div(q, U("um"))), X.mul(a, g), a, X.mul(a, f), X.K(1.0)], **k)
    law(ctx, "untouched", "a table that was written", [X.mul(a, f), X.K(1.0)], **k)
    t = [X.mul(a, X.div(q, U("um"))), X.mul(a, g), a, X.mul(a, f), X.K(4.0), X.K(1.0), X.K(1.0), X.K(1.0), X.K(3.0)]
    t2 = t[:1] + [X.mul(a, f), a, X.mul(a, g)] + t[4:]
    law(ctx, "reread", "tables written and read back", [f] + t + t2 + t, **k)
    law(ctx, "bare", "tables without information read back", [t[0], X.K(1.0)], **k)
    law(ctx, "targets", "targets", [f, g, X.mul(a, X.div(q, U("um"))), q, g, X.K(2.0)], **k)
    law(ctx, "instruments", "channels", [X.mul(a, X.div(q, U("um"))), q, ct, g], **k)
    for fn, why in (("odd", "something it cannot hold"), ("nothing", "an empty value")):
        repo = ctx.repo.probed(LAWS, ext=EXT)
        ctx.refuses("an output file given %s" % why, W, model(), lambda I, st, fn=fn: I.call(I.repo_fn("exorad._probe", fn), [I.region(x) for x in "fqag"], {}, st), why, repo=repo)
