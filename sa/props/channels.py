"""C38: the channels of a payload, built from a description or read back from a file."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from .lists import compare
from .stellar import mul

K = X.K
W = "exorad/tasks/instrumentHandler.py "

# builders, groups of the output and files replaced by what they are handed and hold
PROBE = '''
from collections import OrderedDict
from exorad.models.instruments import Photometer
from exorad.models.instruments import Spectrometer
from exorad.tasks import instrumentHandler as H


class Text:
    """text as a file gives it back"""
    def __init__(self, t):
        self.t = t

    def lower(self):
        return Text(self.t.lower())

    def decode(self, *a):
        return self.t


class Group:
    def __init__(self, entry=None):
        self.kids = OrderedDict()

    def create_group(self, name):
        if name not in self.kids:
            self.kids[name] = Group()
        return self.kids[name]

    def write_table(self, name, table, metadata=None):
        self.kids[name] = table

    def store_dictionary(self, d, group_name=None):
        self.kids[group_name] = d

    def keys(self):
        return list(self.kids.keys())

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self.kids[k]) for k in self.kids.keys()]

    def __contains__(self, k):
        return k in self.kids

    def __getitem__(self, k):
        v = self
        for part in k.split("/"):
            v = v.kids[part]
        return v


class Disk:
    there = False
    root = None
    opened = ""
    built = 0.0
    read = 0.0
    doc = None


D = Disk()


class Out(Group):
    def __init__(self, filename=None, append=False):
        self.filename = filename
        self.append = append
        self.kids = OrderedDict()

    def __enter__(self):
        if self.append and D.root is not None:
            self.kids = D.root.kids
        D.root = self
        D.opened = self.filename
        return self

    def __exit__(self, *a):
        return False


class File:
    def __init__(self, name, mode="r", **k):
        D.opened = name

    def __enter__(self):
        return D.root

    def __exit__(self, *a):
        return False


def isfile(p):
    return D.there


def kept(d):
    """a stored dictionary, read back"""
    D.read = D.read + 1.0
    if "gain" in d and "channelClass" in d:
        out = dict(d)
        out["channelClass"] = {"value": Text(d["channelClass"]["value"])}
        return out
    return d


def table_of(g, path=None, **k):
    return g[path]


def photo(self):
    D.built = D.built + 1.0
    self.table = [1.0, self.description["gain"]["value"]]
    self.built_instr["of"] = self.payload["common"]["q"]["value"]


def spectro(self):
    D.built = D.built + 100.0
    self.table = [2.0, self.description["gain"]["value"]]
    self.built_instr["of"] = self.payload["common"]["q"]["value"]


def path(self):
    self.table = [self.table[0] + 10.0, self.table[1]]


def doc(self):
    assert self.get_task_param("filename") == "p.xml"
    self.set_output(D.doc)


def description(cls, g, name):
    return {"channelClass": {"value": cls}, "gain": {"value": g}, "value": name}


def document(n, ga, gb, q, lo, hi):
    p = {"common": {"q": {"value": q}, "wl_min": {"value": lo}, "wl_max": {"value": hi}}}
    if n == 1:
        p["channel"] = description("Photometer", ga, "zed")
    else:
        p["channel"] = OrderedDict()
        p["channel"]["zed"] = description("spectrometer", ga, "zed")
        p["channel"]["abe"] = description("PHOTOMETER", gb, "abe")
    return p


def kind(c):
    if isinstance(c, Photometer):
        return 1.0
    if isinstance(c, Spectrometer):
        return 2.0
    return 0.0


def seen(chs, payload):
    """what the channels are: how many, and of each its place, class, table, description and payload"""
    out = [1.0 * len(chs)]
    for i, name in enumerate(["zed", "abe"]):
        if name in chs:
            c = chs[name]
            out = out + [1.0 if list(chs.keys())[i] == name and c.name == name else 0.0, kind(c), c.table[0], c.table[1],
                         c.description["gain"]["value"], c.payload["channel"] is payload["channel"], c.built_instr["of"]]
        else:
            out = out + [0.0, 0.0, 0.0, 0.0, 0.0, False, 0.0]
    return out


def stored(root):
    """what a file holds of the payload"""
    if root is None:
        return [0.0] * 12
    g = root["payload"]
    p = g["payload description"]
    out = [p["common"]["q"]["value"], 1.0 * len(g["channels"].keys())]
    for name in ["zed", "abe"]:
        if name in g["channels"].kids:
            c = g["channels"][name]
            out = out + [c[name][0], c[name][1], c["description"]["gain"]["value"], c["built_instr"]["of"], 1.0 * len(p["channel"]["zed"]) if name in p["channel"] else 1.0]
        else:
            out = out + [0.0, 0.0, 0.0, 0.0, 0.0]
    return out


def built(n, ga, gb, q, lo, hi):
    p = document(n, ga, gb, q, lo, hi)
    chs = H.BuildChannels()(payload=p, write=False, output=None)
    return seen(chs, p) + [D.built]


def written(n, ga, gb, q, lo, hi):
    p = document(n, ga, gb, q, lo, hi)
    root = Group()
    chs = H.BuildChannels()(payload=p, write=True, output=root)
    return seen(chs, p) + [D.built] + stored(root)


def twice(n, ga, gb, q, lo, hi):
    task = H.BuildChannels()
    first = document(2, gb, ga, lo, q, hi)
    task(payload=first, write=True, output=Group())
    D.built = 0.0
    p = document(n, ga, gb, q, lo, hi)
    chs = task(payload=p, write=False, output=None)
    return seen(chs, p) + [D.built]


def whole(r, p):
    payload, chs, lim = r
    lo, hi = lim
    return [payload["common"]["q"]["value"], lo, hi] + seen(chs, payload)


def from_dict(n, ga, gb, q, lo, hi):
    p = document(n, ga, gb, q, lo, hi)
    return whole(H.PreparePayload()(payload_file=p, output=None), p) + [D.built] + stored(D.root)


def from_odict(n, ga, gb, q, lo, hi):
    p = OrderedDict(document(n, ga, gb, q, lo, hi))
    return whole(H.PreparePayload()(payload_file=p, output=None), p) + [D.built] + stored(D.root)


def from_xml(n, ga, gb, q, lo, hi):
    D.doc = document(n, ga, gb, q, lo, hi)
    return whole(H.PreparePayload()(payload_file="p.xml", output=None), D.doc) + [D.built] + stored(D.root)


def to_file(n, ga, gb, q, lo, hi):
    D.doc = document(n, ga, gb, q, lo, hi)
    r = whole(H.PreparePayload()(payload_file="p.xml", output="o.h5"), D.doc) + [D.built]
    return r + stored(D.root) + [D.opened == "o.h5", D.root.append]


def to_old_file(n, ga, gb, q, lo, hi):
    D.there = True
    D.root = Group()
    D.root.create_group("other").store_dictionary(7.0, "x")
    D.doc = document(n, ga, gb, q, lo, hi)
    r = whole(H.PreparePayload()(payload_file="p.xml", output="o.h5"), D.doc) + [D.built]
    return r + stored(D.root) + [D.root["other"]["x"], D.root.append]


def dict_to_file(n, ga, gb, q, lo, hi):
    p = document(n, ga, gb, q, lo, hi)
    r = whole(H.PreparePayload()(payload_file=p, output="o.h5"), p) + [D.built]
    return r + stored(D.root) + [D.opened == "o.h5", D.root.append]


def dict_to_old_file(n, ga, gb, q, lo, hi):
    D.there = True
    D.root = Group()
    D.root.create_group("other").store_dictionary(7.0, "x")
    p = document(n, ga, gb, q, lo, hi)
    r = whole(H.PreparePayload()(payload_file=p, output="o.h5"), p) + [D.built]
    return r + stored(D.root) + [D.root["other"]["x"], D.root.append]


def file_back(n, ga, gb, q, lo, hi, name):
    root = Group()
    p = document(n, ga, gb, q, lo, hi)
    H.BuildChannels()(payload=p, write=True, output=root)
    D.built = 0.0
    D.root = root
    return whole(H.PreparePayload()(payload_file=name, output=None), p) + [D.built]


def from_h5(n, ga, gb, q, lo, hi):
    return file_back(n, ga, gb, q, lo, hi, "o.h5")


def from_hdf5(n, ga, gb, q, lo, hi):
    return file_back(n, ga, gb, q, lo, hi, "o.hdf5")


def from_other(n, ga, gb, q, lo, hi):
    D.doc = document(n, ga, gb, q, lo, hi)
    return H.PreparePayload()(payload_file="p.txt", output=None)


def from_none(n, ga, gb, q, lo, hi):
    D.doc = document(n, ga, gb, q, lo, hi)
    return H.PreparePayload()(payload_file=None, output=None)


def unknown(n, ga, gb, q, lo, hi):
    p = document(n, ga, gb, q, lo, hi)
    p["channel"] = description("camera", ga, "zed")
    return H.BuildChannels()(payload=p, write=False, output=None)


def one(n, ga, gb, q, lo, hi):
    p = document(2, ga, gb, q, lo, hi)
    root = Group()
    a = H.BuildInstrument()(type="photometer", name="abe", description=p["channel"]["abe"], payload=p, write=True, output=root)
    b = H.BuildInstrument()(type="spectrometer", name="zed", description=p["channel"]["zed"], payload=p, write=False, output=root)
    return [1.0 * len(root.keys()), root["abe"]["abe"][0], root["abe"]["abe"][1], kind(a), kind(b), a.table[1], b.table[1], D.built]


def rebuilt(n, ga, gb, q, lo, hi):
    p = document(2, ga, gb, q, lo, hi)
    c = Photometer(name="abe", description=p["channel"]["abe"], payload=p)
    c.load([11.0, gb], {"of": q})
    c.build()
    return c


def listed(n, ga, gb, q, lo, hi):
    p = document(2, ga, gb, q, lo, hi)
    p["channel"]["kim"] = description("Photometer", ga, "kim")
    task = H.GetChannelList()
    a = task(options=p, channel_type="photometer")
    b = task(options=p, channel_type="SPECTROMETER")
    c = task(options=p, channel_type="other")
    return [1.0 * len(a), a[0] == "abe", a[1] == "kim", 1.0 * len(b), b[0] == "zed", 1.0 * len(c)]
'''
METHODS = {"Photometer.builder": "photo", "Spectrometer.builder": "spectro", "Instrument.build_optical_path": "path", "LoadOptions.execute": "doc"}
EXT = {"h5py.File": "File", "os.path.isfile": "isfile", "os.path.exists": "isfile", "astropy.io.misc.hdf5.read_table_hdf5": "table_of"}
ARGS = ("ga", "gb", "q", "lo", "hi")
NONE = [K(0.0)] * 5 + [X.FALSE, K(0.0)]


def kept(lib, fn, args, kw, st, node):
    return lib.I.call(lib.I.repo_fn("exorad._probe", "kept"), args, kw, st)


def run(ctx):
    if getattr(ctx, "_channels", None) is None:
        ctx._channels = ctx.repo.probed(PROBE, ext=EXT, methods=METHODS, classes={"HDF5Output": "Out"})
    m = M.Model(1)
    for v in ARGS:
        m.exact[v] = M.n(v, isq=False)
    return ctx._channels, m


def go(fn, n):
    return lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [Num(K(float(n)))] + [I.region(v) for v in ARGS], {}, st)


def prepared(ctx):
    repo, m = run(ctx)
    ga, gb, q, lo, hi = [X.var(v) for v in ARGS]
    yes = X.TRUE
    n1 = [K(1.0), K(1.0), K(1.0), K(11.0), ga, ga, yes, q] + NONE
    n2 = [K(2.0), K(1.0), K(2.0), K(12.0), ga, ga, yes, q, K(1.0), K(1.0), K(11.0), gb, gb, yes, q]
    s1 = [q, K(1.0), K(11.0), ga, ga, q, K(1.0)] + [K(0.0)] * 5
    s2 = [q, K(2.0), K(12.0), ga, ga, q, K(3.0), K(11.0), gb, gb, q, K(3.0)]
    for n, chs, st, made in ((1, n1, s1, [K(1.0)]), (2, n2, s2, [K(101.0)])):
        top = [q, lo, hi] + chs
        off = [K(0.0)] * 12
        for fn, text, want in (("built", "built", chs + made), ("written", "built and stored", chs + made + st), ("twice", "built after those of another payload", chs + made),
                               ("from_dict", "of a dictionary", top + made + off), ("from_odict", "of an ordered dictionary", top + made + off),
                               ("from_xml", "of a description", top + made + off), ("to_file", "of a description, stored", top + made + st + [yes, X.FALSE]),
                               ("to_old_file", "of a description, added to a file", top + made + st + [K(7.0), yes]),
                               ("dict_to_old_file", "of a dictionary, added to a file", top + made + st + [K(7.0), yes]),
                               ("dict_to_file", "of a dictionary, stored", top + made + st + [yes, X.FALSE]),
                               ("from_h5", "of a file", top + [K(0.0)]), ("from_hdf5", "of a file (.hdf5)", top + [K(0.0)])):
            tag = "%d channel%s %s" % (n, "s" if n > 1 else "", text)
            w = W + ("BuildChannels" if fn in ("built", "written", "twice") else "PreparePayload")
            compare(ctx, ctx.run(tag, w, m, go(fn, n), repo=repo, stub={"load": kept}), tag, w, want)
    for fn, text, where in (("from_other", "file of an unknown kind", "PreparePayload"), ("from_none", "no payload", "PreparePayload"), ("unknown", "channel of an unknown class", "BuildInstrument")):
        ctx.refuses(text + " refused", W + where, m, go(fn, 2), "accepted", repo=repo, stub={"load": kept})
    ctx.refuses("loaded channel not built again", "exorad/models/instruments/instrument.py Instrument.build", m, go("rebuilt", 2), "built", repo=repo)
    tag = "one channel built"
    compare(ctx, ctx.run(tag, W + "BuildInstrument", m, go("one", 2), repo=repo), tag, W + "BuildInstrument", [K(1.0), K(11.0), gb, K(1.0), K(2.0), gb, ga, K(101.0)])
    tag = "channels of a class"
    compare(ctx, ctx.run(tag, W + "GetChannelList", m, go("listed", 2), repo=repo), tag, W + "GetChannelList", [K(2.0), yes, yes, K(1.0), yes, K(0.0)])
