"""C16: the description of a payload is what its document says."""
from .. import expr as X
from .. import model as M
from ..interp import Num, StrV, Tup, Unk
from . import lists
from .stellar import U
from .targets import plain

SRC = '''
from astropy.io.ascii.core import InconsistentTableError
from exorad.tasks.loadOptions import LoadOptions
from exorad.utils.passVal import PassVal


class Node:
    def __init__(self, tag, attrib, text, kids):
        self.tag = tag
        self.attrib = attrib
        self.text = text
        self.kids = kids

    def __iter__(self):
        return iter(self.kids)


class Doc:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root


class Files:
    root = None
    missing = False
    odd = False
    reads = []
    fills = []
    table = "the table"


FILES = Files()


def parse(name):
    if FILES.missing:
        raise OSError
    return Doc(FILES.root)


def read(name, **k):
    if FILES.missing:
        raise OSError
    if FILES.odd and k["format"] == "ecsv":
        raise InconsistentTableError("not ecsv")
    FILES.reads.append((name, k["format"]))
    FILES.fills = FILES.fills + [k["fill_values"]]
    return FILES.table


class H5:
    def __init__(self, name, mode="r", **k):
        FILES.reads.append((name, "h5"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def unpickle(f):
    return {"stored": "pickle"}


def stored(f):
    return {"stored": "h5"}


def node(d):
    return Node(d[0], dict(d[1]), d[2], [node(k) for k in d[3]])


DOCS = %r


def loaded(i, name, path):
    FILES.root = node(DOCS[i])
    FILES.reads = []
    d = LoadOptions()(filename=name) if path is None else LoadOptions()(filename=name, config_path=path)
    return d, FILES.reads


def asked(odd, i, name):
    FILES.odd = odd
    FILES.root = node(DOCS[i])
    FILES.reads = []
    LoadOptions()(filename=name)
    n = 1.0 * len(FILES.reads) + 100.0 * len(FILES.fills)
    for f in FILES.reads:
        n = n + (10.0 if f[1] == ("csv" if odd else "ecsv") else 0.0)
    good = 0.0
    for f in FILES.fills:
        for blank in ("#N/A", "N/A", ""):
            if (blank, "0") in f:
                good = good + 1.0
    return [n, good]


def resolution(i, j, x, name):
    PassVal.working_R = x
    FILES.root = node(DOCS[i])
    d = LoadOptions()(filename=name)
    a = PassVal.working_R
    FILES.root = node(DOCS[j])
    d = LoadOptions()(filename=name)
    return [a, PassVal.working_R]


def absent(i, name, path):
    FILES.missing = True
    return loaded(i, name, path)


def again(i, j, name):
    FILES.root = node(DOCS[j])
    LoadOptions()(filename=name)
    return loaded(i, name, None)


def same(i, j, name):
    load = LoadOptions()
    FILES.root = node(DOCS[j])
    load(filename=name)
    FILES.root = node(DOCS[i])
    FILES.reads = []
    d = load(filename=name)
    return d, FILES.reads
'''


def N(tag, text=None, *kids, **attrs):
    return (tag, tuple(attrs.items()), text, kids)


def chan(name, *kids):
    return N("channel", name, *kids, channelClass="Photometer")


# documents: (tag, attributes, text, elements)
DOCS = {
    "values": N("root", None, N("a", "5"), N("b", " 2.50\n"), N("c", "1e-3"), N("d", "some text\n  "), N("e", "True"), N("f", "False"), N("g", "-7"), N("h", "\n "), N("i", ""), N("j", None), N("zero", "0", unit="m"), N("zeros", "007"), N("off", "0", kind="x"),
                N("k", "10", unit="um"), N("l", "0.25", unit="hr"), N("m", "3", unit="dimensionless"), N("n", "true"), N("o", "1.2.3"), N("p", "..."), N("q", "300", unit="K", comment="warm"), N("hex", "0x1F"), N("octal", "010"), N("plus", "+4"), N("two", "first\n    second"), N("comma", "1,5")),
    "nested": N("root", "\n", N("common", "\n", N("wl_min", "0.5", unit="um"), N("foreground", "sky", N("alpha", "1", kind="law", order="2"), N("deep", None, N("deeper", "4", unit="m"))), N("empty", None)), N("named", None, N("kind", "inner"), kind="outer"),
                N("wl_min", "1", unit="nm"), N("other", "x", N("wl_min", "2", unit="AA"))),
    "repeated": N("root", "\n", chan("one", N("R", "1")), N("single", "one", N("z", "9")), chan("two", N("R", "2"), N("opt", "mirror", N("T", "0.1")), N("opt", "lens", N("T", "0.2")), N("opt", "mirror", N("T", "0.3"))),
                  chan("three", N("R", "3")), N("single2", "two"), chan("one", N("R", "4")), chan("one", N("R", "5"))),
    "numbered": N("root", None, N("m", "1", N("T", "0.1")), N("m", "2", N("T", "0.2")), N("m", "2", N("T", "0.3"))),
    "path": N("root", None, N("before", "plain"), N("ConfigPath", "/home/me"), N("a", "__ConfigPath__/x.csv"), N("twice", "__ConfigPath__:__ConfigPath__/z"), N("deep", None, N("b", "data/__ConfigPath__/y.csv"), N("c", "ConfigPath"))),
    "moved": N("root", None, N("ConfigPath", "/home/me"), N("a", "__ConfigPath__/x.csv"), N("ConfigPath2", "z"), N("deep", None, N("ConfigPath", "/srv"), N("b", "__ConfigPath__/y.csv")), N("c", "__ConfigPath__/z.csv")),
    "files": N("root", None, N("ConfigPath", "/home/me"), N("optics", None, N("mirror", "M1", N("datafile", "__ConfigPath__/m1.ecsv"), N("T", "0.9"), N("datatype", "ecsv"))), N("qe", None, N("datafile", "/abs/qe.csv"))),
    "dicts": N("root", None, N("ConfigPath", "/home/me"), N("qe", "x", N("datadict", "__ConfigPath__/qe.h5")), N("psf", None, N("z", "1"), N("datadict", "psf.hdf5"))),
    "pickle": N("root", None, N("qe", "x", N("datadict", "qe.pickle"))),
    "config": N("root", None, N("ConfigPath", "/home/me"), N("detector", None, N("z", "1"), N("config_dict", "__ConfigPath__/d.h5")), N("a", "3")),
    "given": N("root", None, N("a", "__ConfigPath__/x.csv"), N("b", None, N("c", "__ConfigPath__"))),
    "baddict": N("root", None, N("qe", None, N("datadict", "/abs/qe.csv"))),
    "badconf": N("root", None, N("qe", None, N("config_dict", "/abs/qe.csv"))),
    "badtype": N("root", None, N("qe", None, N("datafile", "/abs/qe.csv"), N("datatype", "fits"))),
    "coarse": N("root", None, N("common", None, N("working_R", "1500"))),
    "fine": N("root", None, N("working_R", "20000")),
    "plain": N("root", None, N("q", "1"), N("z", "old")),
}
NAMES = list(DOCS)
W = "exorad/tasks/loadOptions.py "
TABLE = "the table"


def number(t):
    try:
        return int(t)
    except ValueError:
        try:
            return float(t)
        except ValueError:
            return None


def named(v):
    """the key an element is kept under: its value"""
    return v[1] if isinstance(v, tuple) else v


def meaning(node, state):
    """what a document says: text, ("num", value, unit), True/False and dictionaries"""
    out = {}
    for tag, attrs, text, kids in node[3]:
        d = meaning((tag, attrs, text, kids), state)
        d.update(attrs)
        t = (text or "").replace("\n", "").strip()
        v = t
        if t:
            n = number(t)
            if n is not None:
                v = ("num", n, None)
            if "unit" in d:
                v = ("num", n, "" if d["unit"] == "dimensionless" else d["unit"])
            if t in ("True", "False"):
                v = t == "True"
            if isinstance(v, str):
                v = v.replace("__ConfigPath__", state["path"] or "__ConfigPath__")
            if tag == "ConfigPath" and not state["fixed"]:
                state["path"] = v
            d["value"] = v
        if tag not in out:
            out[tag] = d
        else:
            if not isinstance(out[tag], list):
                out[tag] = [(named(out[tag]["value"]), out[tag])]
            k, i = named(v), 1
            while k in [x for x, _ in out[tag]]:
                i += 1
                k = "%s_%d" % (named(v), i)
            out[tag].append((k, d))
    if "datafile" in out:
        state["reads"].append(out["datafile"]["value"])
        out["data"] = ("table",)
    for k in ("datadict", "config_dict"):
        if k in out:
            name = out[k]["value"]
            kind = "pickle" if name.endswith(".pickle") else "h5"
            if kind == "h5":
                state["reads"].append(name)
            if k == "datadict":
                out["data"] = {"stored": kind}
            else:
                out = {"stored": kind, "config_dict": name}
    return out


def entries(I, st, v):
    try:
        its = I.lib.iterate(plain(I, st, I.call(I.getattr(v, "items", st), [], {}, st)), st)
    except Exception:
        return None
    if its is None or any(I.simp(c, st).op != "k" for _, c in its):
        return None
    return [(key(t.items[0]), plain(I, st, t.items[1])) for t, c in its if I.simp(c, st) is X.TRUE]


def key(k):
    return float(k.e.args[0]) if isinstance(k, Num) and k.e.op == "k" else k


def compare(ctx, I, st, got, want, where, bad):
    """differences between a value of the program and the meaning of the document"""
    lib = I.lib
    if isinstance(got, Unk):
        ctx.res.und("value of " + where, W + "__parser__", got.why if hasattr(got, "why") else repr(got))
        return
    if isinstance(want, (dict, list)):
        ents = entries(I, st, got)
        if ents is None:
            bad.append((where, "not a dictionary: %r" % (got,)))
            return
        keys = [k for k, _ in ents]
        need = [k for k, _ in want] if isinstance(want, list) else list(want)
        need = [float(k) if isinstance(k, int) else k for k in need]
        if isinstance(want, list) and keys != need or sorted(map(str, keys)) != sorted(map(str, need)):
            bad.append((where, "keys %r instead of %r" % (keys, need)))
            return
        for k, w in want if isinstance(want, list) else want.items():
            compare(ctx, I, st, dict(ents)[k], w, "%s[%s]" % (where, k), bad)
    elif want == ("table",):
        if got != TABLE:
            bad.append((where, "%r instead of the data" % (got,)))
    elif isinstance(want, tuple):
        n = lib.N(got, st)
        if n is None or isinstance(got, (str, StrV)):
            bad.append((where, "%r instead of a number" % (got,)))
            return
        ctx.eq("value of " + where, W + "__parser__", n, X.mul(X.K(float(want[1])), U(want[2]) if want[2] else X.ONE))
        isq = bool(n.isq)
        if isq != (want[2] is not None):
            bad.append((where, "quantity" if isq else "not a quantity"))
    elif isinstance(want, bool):
        n = lib.N(got, st)
        if n is None or n.e is not (X.TRUE if want else X.FALSE):
            bad.append((where, "%r instead of %r" % (got, want)))
    elif got != want:
        bad.append((where, "%r instead of %r" % (got, want)))


def probed(ctx):
    if getattr(ctx, "_payload", None) is None:
        ctx._payload = ctx.repo.probed(SRC % ([DOCS[k] for k in NAMES],), ext={"xml.etree.ElementTree.parse": "parse", "astropy.io.ascii.read": "read", "h5py.File": "H5", "pickle.load": "unpickle"})
    return ctx._payload


def go(fn, *args):
    args = [Num(X.K(a)) if isinstance(a, int) else a for a in args]
    return lambda I, st: I.call(I.repo_fn("exorad._probe", fn), args, {}, st)


def stored(lib, fn, args, kw, st, node):
    return lib.I.call(lib.I.repo_fn("exorad._probe", "stored"), args, kw, st)


def check(ctx, name, doc, f, path=None):
    r = ctx.run(name, W + "LoadOptions", M.Model(1), f, repo=probed(ctx), total={}, stub={"load": stored})
    if not r:
        return
    I, st, v = r
    for c in I.excs:
        st.assume(c, False)
    state = {"path": path, "fixed": bool(path), "reads": []}
    want = meaning(DOCS[doc], state)
    its = [x for x, _ in I.lib.iterate(v, st)]
    bad = []
    compare(ctx, I, st, its[0], want, name, bad)
    ctx.res.check(not bad, name, W + "__parser__", "; ".join("%s: %s" % b for b in bad[:4]))
    got = I.lib.iterate(plain(I, st, its[1]), st)
    got = [plain(I, st, x) for x, c in got or () if I.simp(c, st) is X.TRUE]
    reads = [plain(I, st, x.items[0]) if isinstance(x, Tup) else x for x in got]
    ctx.res.check(reads == state["reads"], name + ": files read", W + "__parser__", "%r instead of %r" % (reads, state["reads"]))


def documents(ctx):
    for i, n in enumerate(NAMES):
        if not n.startswith("bad"):
            if n != "given":
                check(ctx, "document of " + n, n, go("loaded", i, "payload.xml", None))
            if n in ("path", "moved", "files", "given"):
                check(ctx, "document of %s, path given" % n, n, go("loaded", i, "payload.xml", "/run"), "/run")
            if n in ("values", "nested", "path"):
                check(ctx, "document of %s after another" % n, n, go("again", i, NAMES.index("moved"), "payload.xml"))
                check(ctx, "document of %s, same loader" % n, n, go("same", i, NAMES.index("plain"), "payload.xml"))
    refused = (("documents that are not xml", "loaded", "plain", "payload.h5"), ("missing documents", "absent", "plain", "payload.xml"), ("unknown types of files", "loaded", "badtype", "payload.xml"),
               ("unknown types of dictionaries", "loaded", "baddict", "payload.xml"), ("unknown types of configurations", "loaded", "badconf", "payload.xml"))
    for what, fn, n, name in refused:
        ctx.refuses("%s refused" % what, W + "LoadOptions", M.Model(1), go(fn, NAMES.index(n), name, None), "accepted", repo=probed(ctx))
    for odd in (0, 1):
        tag = "entries not available in a table" + (" not declared" if odd else "")
        r = ctx.run(tag, W + "__read_datatable__", M.Model(1), go("asked", odd, NAMES.index("files"), "payload.xml"), repo=probed(ctx))
        lists.compare(ctx, r, tag, W + "__read_datatable__", [X.K(222.0), X.K(6.0)])
    m = M.Model(1)
    m.exact["x"] = M.n("x", isq=False)
    for a, b, want in (("fine", "coarse", (20000.0, 1500.0)), ("coarse", "fine", (1500.0, 20000.0))):
        tag = "working resolution, %s then %s" % (a, b)

        def f(I, st, a=a, b=b):
            return I.call(I.repo_fn("exorad._probe", "resolution"), [Num(X.K(NAMES.index(a))), Num(X.K(NAMES.index(b))), I.region("x"), "payload.xml"], {}, st)
        lists.compare(ctx, ctx.run(tag, W + "__parser__", m, f, repo=probed(ctx)), tag, W + "__parser__", [X.var("x") if w is None else X.K(w) for w in want])
    for fn, what in (("same", "the same loader"), ("again", "another loader")):
        ctx.refuses("path of an earlier document not used by " + what, W + "LoadOptions", M.Model(1), go(fn, NAMES.index("given"), NAMES.index("moved"), "payload.xml"), "the path of the document loaded before is used",
                    repo=probed(ctx))
