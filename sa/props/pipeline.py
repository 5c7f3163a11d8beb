"""C19: the pipeline and its output file."""
from .. import expr as X
from .. import model as M
from . import logs

DISK = logs.PROBE + '''

import exorad.exorad as app
from exorad.exorad import standard_pipeline

OUT = "/w/out/res.h5"
OPT = "/w/in/payload.xml"
TGT = "/w/in/targets.csv"


class SameFile(OSError):
    pass


class Disk:
    out = False      # the output file exists
    room = True      # the directory of the output file exists
    same_opt = False  # the output file is the payload description under another name
    same_tgt = False
    near = False     # the inputs lie beside the output file
    near_opt = False
    near_tgt = False
    held = 0.0       # what the output file holds
    lost = 0.0       # inputs removed
    acts = 0.0       # changes of the disk
    opts = 0.0       # copies of the payload description beside the output file
    tgts = 0.0
    astray = 0.0


D = Disk()


class Path:
    def __init__(self, p, *more):
        self.text = name(p)

    @classmethod
    def cwd(cls):
        return Path("/w/here")

    @classmethod
    def home(cls):
        return Path("/w/here")

    @property
    def parent(self):
        return Path(dirname(self.text))

    @property
    def name(self):
        return basename(self.text)

    def absolute(self):
        return self

    def resolve(self, *a, **k):
        return self

    def expanduser(self):
        return self

    def exists(self):
        return exists(self)

    def is_file(self):
        return isfile(self)

    def is_dir(self):
        return isdir(self)

    def samefile(self, q):
        return samefile(self, q)

    def mkdir(self, *a, **k):
        makedirs(self)

    def unlink(self, *a, **k):
        remove(self)

    def as_posix(self):
        return self.text

    def joinpath(self, q):
        return Path(join(self.text, q))

    def __truediv__(self, q):
        return Path(join(self.text, q))

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text


def name(p):
    if isinstance(p, Path):
        return p.text
    if isinstance(p, str):
        return p
    raise TypeError("expected str, bytes or os.PathLike object")


def dirname(p):
    p = name(p)
    return {OUT: "/w/out", OPT: "/w/in", TGT: "/w/in", "/w/out": "/w", "/w/in": "/w", "/w/here": "/w"}[p]


def here():
    return "/w/here"


def basename(p):
    p = name(p)
    return {OUT: "res.h5", OPT: "payload.xml", TGT: "targets.csv", "/w/out": "out", "/w/in": "in", "/w/here": "here"}[p]


def abspath(p):
    return name(p)


def join(p, q):
    return name(p) + "/" + name(q)


def isfile(p):
    p = name(p)
    if p == OUT:
        return D.out
    return p == OPT or p == TGT


def isdir(p):
    p = name(p)
    if p == "/w/out":
        return D.room
    return p == "/w/in" or p == "/w" or p == "/w/here"


def exists(p):
    return isfile(p) or isdir(p)


def samefile(p, q):
    p = name(p)
    q = name(q)
    if not exists(p) or not exists(q):
        raise FileNotFoundError(p)
    if p == q:
        return True
    if (p == OPT and q == OUT) or (p == OUT and q == OPT):
        return D.same_opt
    if (p == TGT and q == OUT) or (p == OUT and q == TGT):
        return D.same_tgt
    return False


def remove(p):
    p = name(p)
    D.acts = D.acts + 1.0
    if p != OUT:
        D.lost = D.lost + 1.0
    elif not D.out:
        raise FileNotFoundError(p)
    elif D.same_opt or D.same_tgt:
        D.lost = D.lost + 1.0
    else:
        D.out = False
        D.held = 0.0


def rmtree(p, *a, **k):
    D.acts = D.acts + 1.0
    D.lost = D.lost + 1.0


def rename(p, q):
    D.acts = D.acts + 1.0
    D.lost = D.lost + 1.0


def makedirs(p, *a, **k):
    D.acts = D.acts + 1.0
    if name(p) == "/w/out":
        if D.room and not k.get("exist_ok", False):
            raise FileExistsError(p)
        D.room = True
    else:
        D.astray = D.astray + 1.0


def copy(p, q, *a, **k):
    p = name(p)
    q = name(q)
    D.acts = D.acts + 1.0
    if q == "/w/out":
        if not D.room:
            D.astray = D.astray + 1.0
    elif q != "/w/out/payload.xml" and q != "/w/out/targets.csv":
        D.astray = D.astray + 1.0
    if D.near or (p == OPT and D.near_opt) or (p == TGT and D.near_tgt):
        raise SameFile(p)
    if p == OPT:
        D.opts = D.opts + 1.0
    elif p == TGT:
        D.tgts = D.tgts + 1.0
    else:
        D.astray = D.astray + 1.0
    return q


class File:
    def __init__(self, filename, append=False):
        self.path = name(filename)
        self.append = append
        self.ready = False

    def __enter__(self):
        self.open()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def open(self):
        if self.path != OUT:
            D.astray = D.astray + 1.0
        if not D.room:
            raise FileNotFoundError(self.path)
        if D.same_opt or D.same_tgt:
            if not self.append:
                D.lost = D.lost + 1.0
            raise OSError("not an hdf5 file")
        if not self.append:
            D.held = 0.0
        D.acts = D.acts + 1.0
        D.out = True
        self.ready = True

    def close(self):
        self.ready = False

    def add(self, x):
        if not self.ready:
            raise ValueError("closed")
        D.held = D.held + x
'''

RUN = DISK + '''
import numpy as np
from astropy.table import QTable

class Target:
    def __init__(self, flux):
        self.flux = flux

    def write(self, out):
        out.add(self.flux)


class Targets:
    def __init__(self, target):
        self.target = target


class Channel:
    pass


class Shown:
    files = 0.0
    where = None
    drawn = 0.0
    shown = 0.0
    given = 0.0


class Seen:
    pass


SEEN = Seen()
SHOWN = Shown()


def options(self):
    SEEN.file = self.get_task_param("filename")
    self.set_output({"common": {"wl_min": {"value": SEEN.lo}, "wl_max": {"value": SEEN.hi}}, "channel": {}, "tag": SEEN.tag})


def build(self):
    SEEN.built = self.get_task_param("payload")
    c = Channel()
    c.tag = SEEN.tag
    c.table = QTable()
    c.table["efficiency"] = np.array([SEEN.eff])
    c.table["instrument_signal"] = np.array([SEEN.sig1 + SEEN.sig2])
    c.table["star"] = np.array([SEEN.star])
    s = QTable()
    s["M1 signal"] = np.array([SEEN.sig1])
    s["detector signal"] = np.array([SEEN.sig2])
    c.built_instr = {"optical_path": {"signal_table": s}}
    e = Channel()
    e.tag = SEEN.tag
    e.table = QTable()
    e.table["instrument_signal"] = np.array([SEEN.sig2])
    e.table["star"] = np.array([SEEN.sig1])
    t = QTable()
    t["M2 signal"] = np.array([SEEN.sig2])
    e.built_instr = {"optical_path": {"signal_table": t}}
    if self.get_task_param("write"):
        self.get_task_param("output").add(SEEN.tag)
    self.set_output({"chA": c, "chB": e})


def targets(self):
    SEEN.list = self.get_task_param("target_list")
    self.set_output(Targets([Target(f) for f in SEEN.fluxes]))


def observed(self):
    for k in ("payload", "channels", "wl_range", "plot", "out_dir", "n_thread", "debug"):
        setattr(SEEN, k, self.get_task_param(k))
    ts = self.get_task_param("targets")
    SEEN.count = len(ts)
    if SEEN.drop:
        self.set_output({"one": ts[0]})
    else:
        self.set_output({"one": ts[0], "two": ts[1]})


def merged(self):
    self.set_output(self.get_task_param("channels"))


class Plots:
    def __init__(self, input_table, channels=None, *a, **k):
        if len(channels) == 2 and len(input_table) == 2 and channels["chA"] is input_table["chA"] and channels["chB"] is input_table["chB"]:
            SHOWN.given = SHOWN.given + 1.0

    def plot_efficiency(self, *a, **k):
        SHOWN.drawn = SHOWN.drawn + 1.0

    def plot_table(self, *a, **k):
        pass

    plot_bands = plot_noise = plot_signal = plot_table

    def save_fig(self, fname, efficiency=False, *a, **k):
        if efficiency:
            SHOWN.files = SHOWN.files + 1.0
            SHOWN.where = fname


def show(*a, **k):
    SHOWN.shown = SHOWN.shown + 1.0


def case(lo, hi, tag, f1, f2, out, room, opt, tgt, near, old):
    SEEN.lo = lo
    SEEN.hi = hi
    SEEN.tag = tag
    SEEN.fluxes = [f1, f2]
    SEEN.drop = False
    SEEN.eff = tag
    SEEN.sig1 = f1
    SEEN.sig2 = f2
    SEEN.star = old
    D.out = out
    D.room = room
    D.same_opt = opt
    D.same_tgt = tgt
    D.near = near
    if out:
        D.room = True
        D.held = old


def go(*a, **k):
    try:
        standard_pipeline(*a, **k)
        return 1.0
    except Exception:
        return 0.0


def keeps_inputs(out, room, opt, tgt, near, replace):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, room, opt and out, tgt and out, near, 1.0)
    go(OPT, TGT, OUT, replace=replace)
    return [D.lost, D.astray]


def refuses(opt, tgt, near, replace):
    case(1.0, 2.0, 3.0, 4.0, 5.0, True, True, opt, tgt, near, 1.0)
    return go(OPT, TGT, OUT, replace=replace)


def holds(tag, f1, f2, out, room, near, old, replace):
    case(1.0, 2.0, tag, f1, f2, out, room, False, False, near, old)
    standard_pipeline(OPT, TGT, OUT, replace=replace)
    return D.held


def default_holds(tag, f1, f2, out, room, near, old):
    case(1.0, 2.0, tag, f1, f2, out, room, False, False, near, old)
    standard_pipeline(options=OPT, target_list=TGT, output=OUT)
    return D.held


def holds_observed(tag, f1, f2, out, near, old, replace):
    case(1.0, 2.0, tag, f1, f2, out, True, False, False, near, old)
    SEEN.drop = True
    standard_pipeline(OPT, TGT, OUT, replace=replace)
    return D.held


def holds_dict(tag, f1, f2, out, near, old, replace):
    case(1.0, 2.0, tag, f1, f2, out, True, False, False, near, old)
    standard_pipeline({"common": {"wl_min": {"value": 1.0}, "wl_max": {"value": 2.0}}, "channel": {}}, TGT, OUT, replace=replace)
    return D.held


def copies(out, room, near, replace, which):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, room, False, False, near, 1.0)
    standard_pipeline(OPT, TGT, OUT, replace=replace)
    return [D.opts, D.tgts]


def nothing_asked(out, room, replace, full, n, debug, plot):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, room, False, False, False, 1.0)
    standard_pipeline(OPT, TGT, replace=replace, n_thread=n, debug=debug, plot=plot)
    return [D.acts, SEEN.count, 1.0 if SEEN.out_dir is None else 0.0]


def passed(lo, hi, tag, out, room, near, replace, plot, n, debug):
    case(lo, hi, tag, 4.0, 5.0, out, room, False, False, near, 1.0)
    standard_pipeline(OPT, TGT, OUT, replace=replace, plot=plot, n_thread=n, debug=debug)
    w = SEEN.wl_range
    same = 1.0 if SEEN.file == OPT and SEEN.list == TGT and name(SEEN.out_dir) == "/w/out" else 0.0
    return [w[0], w[1], SEEN.payload["tag"], SEEN.channels["chA"].tag, SEEN.plot, SEEN.n_thread, SEEN.debug, SEEN.count, same]


def contributions(tag, f1, f2, old, out, near, replace, plot, full):
    case(1.0, 2.0, tag, f1, f2, out, True, False, False, near, old)
    standard_pipeline(OPT, TGT, OUT, replace=replace, plot=plot, full_contrib=full)
    t = SEEN.channels["chA"].table
    parts = t["M1 signal"][0] + t["detector signal"][0] if full else t["instrument_signal"][0]
    left = 0.0 if full and "instrument_signal" in t.keys() else 1.0
    e = SEEN.channels["chB"].table
    more = e["M2 signal"][0] if full else e["instrument_signal"][0]
    width = 1.0 * len(e.keys()) + len(t.keys())
    return [t["efficiency"][0], t["star"][0], parts, left, e["star"][0], more, width]


def drawn(out, room, near, replace, plot):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, room, False, False, near, 1.0)
    standard_pipeline(OPT, TGT, OUT, replace=replace, plot=plot)
    good = 1.0
    if SHOWN.where is not None:
        good = 1.0 if name(SHOWN.where) == "/w/out/efficiency.png" else 0.0
    return [SHOWN.files, good, SHOWN.given, SHOWN.drawn, SHOWN.shown]


def on_screen(plot, debug, replace):
    case(1.0, 2.0, 3.0, 4.0, 5.0, False, False, False, False, False, 1.0)
    standard_pipeline(OPT, TGT, plot=plot, debug=debug, replace=replace)
    return [SHOWN.files, SHOWN.given, SHOWN.drawn, SHOWN.shown]


def copies_apart(out, near_opt, near_tgt, replace):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, True, False, False, False, 1.0)
    D.near_opt = near_opt
    D.near_tgt = near_tgt
    standard_pipeline(OPT, TGT, OUT, replace=replace)
    return [D.opts, D.tgts, D.lost]
'''
W = "exorad/exorad.py standard_pipeline"
EXT = {"os.path.exists": "exists", "os.path.lexists": "exists", "os.path.isfile": "isfile", "os.path.isdir": "isdir", "os.path.samefile": "samefile",
       "os.path.dirname": "dirname", "os.path.basename": "basename", "os.path.abspath": "abspath", "os.path.realpath": "abspath", "os.path.join": "join",
       "os.remove": "remove", "os.unlink": "remove", "os.rename": "rename", "os.replace": "rename", "os.makedirs": "makedirs", "os.mkdir": "makedirs",
       "shutil.copy": "copy", "shutil.copy2": "copy", "shutil.copyfile": "copy", "shutil.move": "rename", "shutil.rmtree": "rmtree",
       "shutil.SameFileError": "SameFile", "pathlib.Path": "Path", "os.PathLike": "Path", "os.fspath": "name", "os.getcwd": "here",
       "logging.getLogger": "getLogger", "matplotlib.pyplot.show": "show"}
METHODS = {"LoadOptions.execute": "options", "BuildChannels.execute": "build", "LoadTargetList.execute": "targets", "ObserveTargetlist.execute": "observed",
           "MergeChannelsOutput.execute": "merged"}
CLASSES = {"HDF5Output": "File", "Plotter": "Plots"}
NUMS = ("tag", "f1", "f2", "old", "lo", "hi", "threads")


def run(ctx, fn, text, names, src=RUN, methods=METHODS, where=W, ext={}, classes=CLASSES):
    from ..interp import Num
    repo = ctx.repo.probed(src, ext=dict(EXT, **ext), methods=methods, classes=classes)
    m = M.Model(1)
    for v in NUMS:
        m.exact[v] = M.n(v, isq=False)

    def f(I, st):
        arg = [I.region(v) if v in NUMS else Num(X.K(int(v)), isq=False) if v.isdigit() else Num(X.bvar(v)) for v in names.split()]
        return I.call(I.repo_fn("exorad._probe", fn), arg, {}, st)
    return ctx.run(text, where, m, f, repo=repo)


def law(ctx, fn, text, names, want, **k):
    from .lists import compare
    compare(ctx, run(ctx, fn, text, names, **k), text, k.get("where", W), want)


def b(name):
    return X.bvar(name)


def num(name):
    return X.ite(b(name), X.K(1.0), X.K(0.0))


def held(new):
    e = X.ite(X.AND(b("out"), X.NOT(b("replace"))) if new is None else b("out"), X.var("old"), X.ZERO)
    return e


def total(*vs):
    e = X.ZERO
    for v in vs:
        e = X.add(e, X.var(v))
    return e


def kept():
    return X.ite(X.AND(b("out"), X.NOT(b("replace"))), X.var("old"), X.ZERO)


def outputs(ctx):
    law(ctx, "keeps_inputs", "inputs removed or files left elsewhere", "out room opt tgt near replace", [X.K(0.0)] * 2)
    law(ctx, "refuses", "a run whose output is one of its inputs", "opt tgt near replace", [X.ite(X.OR(b("opt"), b("tgt")), X.K(0.0), X.K(1.0))])
    law(ctx, "holds", "what the output file holds", "tag f1 f2 out room near old replace", [X.add(kept(), total("tag", "f1", "f2"))])
    law(ctx, "default_holds", "what the output file holds by default", "tag f1 f2 out room near old", [total("tag", "f1", "f2")])
    law(ctx, "holds_observed", "what the output file holds when a target is dropped", "tag f1 f2 out near old replace", [X.add(kept(), total("tag", "f1"))])
    law(ctx, "holds_dict", "what the output file holds for a payload given as a dictionary", "tag f1 f2 out near old replace", [X.add(kept(), total("tag", "f1", "f2"))])
    law(ctx, "copies", "copies of the inputs beside the output file", "out room near replace which", [X.ite(b("near"), X.K(0.0), X.K(1.0))] * 2)
    law(ctx, "nothing_asked", "a run without an output file", "out room replace full threads debug plot", [X.K(0.0), X.K(2.0), X.K(1.0)])
    law(ctx, "passed", "parameters of the observations", "lo hi tag out room near replace plot threads debug",
        [X.var("lo"), X.var("hi"), X.var("tag"), X.var("tag"), num("plot"), X.var("threads"), num("debug"), X.K(2.0), X.K(1.0)])
    law(ctx, "drawn", "the efficiency plot", "out room near replace plot", [num("plot"), X.K(1.0), num("plot"), num("plot"), X.ZERO])
    law(ctx, "on_screen", "the efficiency plot without an output file", "plot debug replace", [X.ZERO, num("plot"), num("plot"), num("plot")])
    law(ctx, "copies_apart", "copies of the inputs, one of them already beside the output file", "out near_opt near_tgt replace", [X.ite(b("near_opt"), X.ZERO, X.K(1.0)), X.ite(b("near_tgt"), X.ZERO, X.K(1.0)), X.ZERO])
    law(ctx, "contributions", "the contributions of the instrument to a channel", "tag f1 f2 old out near replace plot full",
        [X.var("tag"), X.var("old"), total("f1", "f2"), X.K(1.0), X.var("f1"), X.var("f2"), X.ite(b("full"), X.K(6.0), X.K(5.0))])


# ---------------------------------------------------------------- command line
PARSER = '''

class Space:
    pass


class Argv:
    words = {}


ARGV = Argv()


class Refused(Exception):
    pass


class Parser:
    """what argparse does with the words of a command line"""

    def __init__(self, *a, **k):
        self.args = []
        self.given = {}

    def add_argument(self, *flags, dest=None, action="store", type=None, default=None, required=False, help=None, nargs=None, choices=None, metavar=None, const=None):
        if dest is None:
            longs = [f for f in flags if f[:2] == "--"]
            first = longs[0] if longs else flags[0]
            dest = first.lstrip("-").replace("-", "_")
        if action == "store_true" and default is None:
            default = False
        if action == "store_false" and default is None:
            default = True
        self.args.append((flags, dest, action, type, default, required))

    def add_argument_group(self, *a, **k):
        return self

    def add_mutually_exclusive_group(self, *a, **k):
        return self

    def set_defaults(self, **k):
        self.given = k

    def parse_args(self, args=None):
        ns = Space()
        for flags, dest, action, kind, default, required in self.args:
            value = default
            found = False
            for f in flags:
                if f in ARGV.words:
                    on, word = ARGV.words[f]
                    found = on or found
                    if action == "store_true":
                        value = True if on else value
                    elif action == "store_false":
                        value = False if on else value
                    elif on:
                        value = word if kind is None or kind is str else kind(word)
            if required and not found:
                raise Refused(dest)
            setattr(ns, dest, value)
        return ns

    def parse_known_args(self, args=None):
        return self.parse_args(args), []


class Files:
    made = 0.0
    where = None


FILES = Files()


FILEHAND = Handler()


def filehandler(fname, *a, **k):
    FILES.made = FILES.made + 1.0
    FILES.where = fname
    return FILEHAND
'''

CLI = RUN + PARSER + '''

from exorad.log import addLogFile


def words(long, p, t, o, c, n, d, l, P):
    names = ("--payload", "--targetList", "--output", "--full_contrib", "--nThreads", "--debug", "--log", "--plot") if long else ("-p", "-t", "-o", "-c", "-n", "-d", "-l", "-P")
    ARGV.words = dict(zip(names, ((p, OPT), (t, TGT), (o, OUT), (c, None), (n, "4"), (d, None), (l, None), (P, None))))


def told(long, o, c, n, d, l, P, tag, f1, f2, old, out, near):
    case(1.0, 2.0, tag, f1, f2, out, True, False, False, near, old)
    words(long, True, True, o, c, n, d, l, P)
    app.main()
    where = 0.0
    if o:
        where = 1.0 if SEEN.out_dir is not None and name(SEEN.out_dir) == "/w/out" else 0.0
    else:
        where = 1.0 if SEEN.out_dir is None else 0.0
    files = 1.0 if SEEN.file == OPT and SEEN.list == TGT else 0.0
    t = SEEN.channels["chA"].table
    full = 0.0 if "instrument_signal" in t.keys() else 1.0
    return [files, where, full, -1.0 if isinstance(SEEN.n_thread, str) else SEEN.n_thread, SEEN.debug, SEEN.plot, FILES.made, D.held, D.lost, SHOWN.drawn, SHOWN.given, SHOWN.files, SHOWN.shown]


def short(o, c, n, d, l, P, tag, f1, f2, old, out, near):
    return told(False, o, c, n, d, l, P, tag, f1, f2, old, out, near)


def long(o, c, n, d, l, P, tag, f1, f2, old, out, near):
    return told(True, o, c, n, d, l, P, tag, f1, f2, old, out, near)


def kept_log(o, l, d, out, how):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, True, False, False, False, 1.0)
    HAND.level = 20
    log = l
    want = "exorad.log"
    if how == 1:
        log = "run.log"
        want = "run.log"
    if o:
        standard_pipeline(OPT, TGT, OUT, log=log, debug=d)
    else:
        standard_pipeline(OPT, TGT, log=log, debug=d)
    there = 1.0
    if FILES.where is not None:
        there = 1.0 if FILES.where == want else 0.0
    return [FILES.made, there, HAND.level]


def without(p, t, o, out):
    case(1.0, 2.0, 3.0, 4.0, 5.0, out, True, False, False, False, 1.0)
    words(False, p, t, o, False, False, False, False, False)
    ran = 0.0
    try:
        app.main()
        ran = 1.0
    except Exception:
        ran = 0.0
    return [ran, D.lost]
'''


def commands(ctx):
    k = {"src": CLI, "where": "exorad/exorad.py main", "ext": {"argparse.ArgumentParser": "Parser", "logging.FileHandler": "filehandler"}}
    new = total("tag", "f1", "f2")
    want = [X.K(1.0), X.K(1.0), num("c"), X.ite(b("n"), X.K(4.0), X.K(1.0)), num("d"), num("P"), num("l"),
            X.ite(b("o"), new, X.ite(b("out"), X.var("old"), X.ZERO)), X.K(0.0)]
    want += [num("P"), num("P"), X.ite(X.AND(b("P"), b("o")), X.K(1.0), X.ZERO), X.ite(X.AND(b("P"), X.NOT(b("o"))), X.K(1.0), X.ZERO)]
    for fn in ("short", "long"):
        law(ctx, fn, "what the flags ask for (%s names)" % fn, "o c n d l P tag f1 f2 old out near", want, **k)
    for how, made in ((0, num("l")), (1, X.K(1.0))):
        law(ctx, "kept_log", "log file %s" % ("asked for or not", "asked for by name")[how], "o l d out %d" % how, [made, X.K(1.0), X.ite(b("d"), X.K(10), X.K(20))], **k)
    law(ctx, "without", "a command line without its inputs", "p t o out", [X.ite(X.AND(b("p"), b("t")), X.K(1.0), X.K(0.0)), X.K(0.0)], **k)


PLOTS = RUN + PARSER + '''

from exorad.utils import plotter


class Drawing:
    def __init__(self, input_table, channels=None, payload=None):
        self.table = input_table
        self.done = False

    def plot_table(self, *a, **k):
        self.done = True

    def save_fig(self, fname, *a, **k):
        if self.done:
            DRAWN.figs[name(fname)] = self.table


class Drawn:
    figs = {}
    mode = 1.0


DRAWN = Drawn()


class Node:
    def __init__(self, items):
        self.items_ = items

    def __getitem__(self, k):
        return self.items_[k]

    def keys(self):
        return self.items_.keys()

    def __iter__(self):
        return iter(self.items_.keys())

    def __len__(self):
        return len(self.items_)

    def __contains__(self, k):
        return k in self.items_

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class H5:
    pass


def h5(fname, mode="r", *a, **k):
    if mode != "r" or name(fname) != OUT:
        DRAWN.mode = 0.0
    return Node({"info": Node({}), "targets": Node({"HD 1": Node({"table": Node({"table": SEEN.fluxes[0]})}), "HD 10": Node({"table": Node({"table": SEEN.fluxes[1]})}),
                                                    "A HD 1": Node({"table": Node({"table": SEEN.tag})})})})


def read(d, path=None, *a, **k):
    return d[path]


def plots(how, a, b):
    if how == 0:
        return {}
    if how == 1:
        return {"-n": (True, a)}
    if how == 2:
        return {"-t": (True, b)}
    if how == 3:
        return {"--target-number": (True, a)}
    return {"--target-name": (True, b)}


def selected(tag, f1, f2, room, d, how, number, target):
    case(1.0, 2.0, tag, f1, f2, True, room, False, False, False, 1.0)
    D.room = room
    w = plots(how, number, target)
    w["-d"] = (d, None)
    if how > 2:
        w["--input"] = (True, OUT)
        w["--out"] = (True, "/w/out")
    else:
        w["-i"] = (True, OUT)
        w["-o"] = (True, "/w/out")
    ARGV.words = w
    plotter.main()
    return [DRAWN.figs.get("/w/out/" + k + ".png", -1.0) for k in ("HD 1", "HD 10", "A HD 1")] + [1.0 * len(DRAWN.figs), DRAWN.mode, D.lost, 1.0 if D.room else 0.0]


def both(tag, f1, f2, room):
    case(1.0, 2.0, tag, f1, f2, True, room, False, False, False, 1.0)
    ARGV.words = {"-i": (True, OUT), "-o": (True, "/w/out"), "-n": (True, "0"), "-t": (True, "HD 1")}
    try:
        plotter.main()
    except Exception:
        return 0.0
    return 1.0
'''
ALL = (0, 1, 2)
SELECTIONS = [(0, "", "", ALL), (1, "all", "", ALL), (1, "0", "", (0,)), (1, "2", "", (2,)), (1, "1-2", "", (1, 2)), (1, "0,2", "", (0, 2)), (1, "0-1,2", "", ALL),
              (1, "0-0", "", (0,)), (1, "none", "", ()), (2, "", "HD 10", (1,)), (2, "", "HD 1", (0,)), (2, "", "HD", ()), (3, "0-1", "", (0, 1)), (3, " all ", "", ALL), (4, "", "A HD 1", (2,)), (4, "", "HD 1", (0,))]


def selections(ctx):
    from .lists import compare
    from ..interp import Num
    where = "exorad/utils/plotter.py main"
    ext = dict(EXT, **{"argparse.ArgumentParser": "Parser", "h5py.File": "h5", "astropy.io.misc.hdf5.read_table_hdf5": "read"})
    cls = {"HDF5Output": "File", "Plotter": "Drawing"}
    repo = ctx.repo.probed(PLOTS, ext=ext, methods=METHODS, classes=cls)
    m = M.Model(1)
    for v in NUMS:
        m.exact[v] = M.n(v, isq=False)
    vals = [X.var("f1"), X.var("f2"), X.var("tag")]
    for how, number, target, sel in SELECTIONS:
        def f(I, st):
            arg = [I.region(v) for v in ("tag", "f1", "f2")] + [Num(b("room")), Num(b("d")), Num(X.K(how), isq=False), number, target]
            return I.call(I.repo_fn("exorad._probe", "selected"), arg, {}, st)
        text = "figures drawn for %s %r" % ("-n" if how in (1, 3) else "-t" if how else "every target", number or target)
        r = ctx.run(text, where, m, f, repo=repo)
        compare(ctx, r, text, where, [vals[i] if i in sel else X.K(-1.0) for i in range(3)] + [X.K(float(len(sel))), X.K(1.0), X.K(0.0), X.K(1.0)])
    law_ = ctx.run("a target number and a target name together", where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", "both"), [I.region(v) for v in ("tag", "f1", "f2")] + [Num(b("room"))], {}, st), repo=repo)
    compare(ctx, law_, "a target number and a target name together", where, [X.K(0.0)])
