"""C21: the log level the user asked for."""
from .. import expr as X
from .. import model as M
from .tasks import flat

PROBE = '''
from exorad.log import setLogLevel, disableLogging, enableLogging


class Handler:
    level = 20

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, f):
        pass


HAND = Handler()


class Screen:
    def __init__(self, stream=None):
        pass

    @property
    def level(self):
        return HAND.level

    def setLevel(self, level):
        HAND.setLevel(level)

    def setFormatter(self, f):
        pass


class Log:
    name = "exorad"

    def __init__(self):
        self.handlers = [HAND]

    def addHandler(self, h):
        pass

    def setLevel(self, level):
        pass

    def info(self, *a, **k):
        pass

    debug = warning = error = critical = info


def getLogger(name=None):
    return Log()


def asked(x, y):
    setLogLevel(x)
    return HAND.level


def muted(x, y):
    setLogLevel(x)
    disableLogging()
    return HAND.level


def restored(x, y):
    setLogLevel(x)
    disableLogging()
    enableLogging()
    return HAND.level


def untouched(x, y):
    disableLogging()
    enableLogging()
    return HAND.level


def twice(x, y):
    setLogLevel(x)
    disableLogging()
    disableLogging()
    enableLogging()
    a = HAND.level
    enableLogging()
    b = HAND.level
    disableLogging()
    c = HAND.level
    enableLogging()
    return a, b, c, HAND.level


def latest(x, y):
    setLogLevel(x)
    setLogLevel(y)
    a = HAND.level
    disableLogging()
    enableLogging()
    b = HAND.level
    setLogLevel(x)
    disableLogging()
    enableLogging()
    return a, b, HAND.level


def while_muted(x, y):
    setLogLevel(x)
    disableLogging()
    setLogLevel(y)
    enableLogging()
    return HAND.level
'''
ERR, INFO = X.K(40), X.K(20)


def levels(ctx):
    where = "exorad/log/__init__.py"
    repo = ctx.repo.probed(PROBE, ext={"logging.getLogger": "getLogger"})
    x, y = X.var("x"), X.var("y")
    cases = {"asked": ("level asked for", [x]), "muted": ("muted", [ERR]), "restored": ("level after muting", [x]), "untouched": ("default level after muting", [INFO]),
             "twice": ("muting repeated", [x, x, ERR, x]), "latest": ("level changed", [y, y, x]), "while_muted": ("level changed while muted", [y])}
    for k, (text, want) in cases.items():
        m = M.Model(1)
        for v in "xy":
            m.exact[v] = M.n(v, isq=False)
        r = ctx.run(text, where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", k), [I.region("x"), I.region("y")], {}, st), repo=repo)
        if r is None:
            continue
        I, st, v = r
        got = flat(I, v, st)
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.eq("%s (%d)" % (text, i + 1), where, g, w)


SPOKEN = '''
import logging
from exorad.log import setLogLevel, disableLogging, enableLogging, addLogFile
from exorad.log.logger import Logger

NUMBERS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


class Record:
    def __init__(self, name, levelno, msg):
        self.name = name
        self.levelno = levelno
        self.msg = msg


class Sink:
    def __init__(self, stream=None):
        self.level = 0
        self.seen = []

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, f):
        pass

    def emit(self, record):
        self.seen.append((record.name, record.levelno, record.msg))

    def handle(self, record):
        if record.levelno >= self.level:
            self.emit(record)

    def close(self):
        pass


class FileSink(Sink):
    def __init__(self, filename, *a, **k):
        Sink.__init__(self)
        FILES[filename] = self


class Format:
    def __init__(self, *a, **k):
        pass


class Log:
    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.level = 0
        self.propagate = True
        self.handlers = []

    def addHandler(self, h):
        self.handlers.append(h)

    def setLevel(self, level):
        self.level = level

    def getEffectiveLevel(self):
        if self.level or self.parent is None:
            return self.level
        return self.parent.getEffectiveLevel()

    def isEnabledFor(self, level):
        return level >= self.getEffectiveLevel()

    def say(self, levelno, msg):
        if levelno >= self.getEffectiveLevel():
            self.pass_on(Record(self.name, levelno, msg))

    def pass_on(self, record):
        for h in self.handlers:
            h.handle(record)
        if self.propagate and self.parent is not None:
            self.parent.pass_on(record)

    def debug(self, msg, *a, **k):
        self.say(10, msg)

    def info(self, msg, *a, **k):
        self.say(20, msg)

    def warning(self, msg, *a, **k):
        self.say(30, msg)

    def error(self, msg, *a, **k):
        self.say(40, msg)

    def critical(self, msg, *a, **k):
        self.say(50, msg)

    def log(self, level, msg, *a, **k):
        self.say(level, msg)


FILES = {}
TOP = Log("root", None)
OTHER = Sink()
TOP.addHandler(OTHER)
LOGS = {}


def getLogger(name=None):
    if name is None:
        return TOP
    if name not in LOGS:
        parent = TOP
        if "." in name:
            parent = getLogger(name.rpartition(".")[0])
        LOGS[name] = Log(name, parent)
    return LOGS[name]


class Speaker(Logger):
    pass


class Late(Logger):
    def __init__(self):
        self.set_log_name()


def screen():
    return getLogger("exorad").handlers[0]


def words(sink):
    return [m for n, l, m in sink.seen]


def talk(s):
    s.debug("d")
    s.info("i")
    s.warning("w")
    s.error("e")
    s.critical("c")


def same(a, b):
    if len(a) != len(b):
        return 0.0
    for i in range(len(b)):
        if a[i] != b[i]:
            return 0.0
    return 1.0


FROM = {10: "diwec", 20: "iwec", 30: "wec", 40: "ec"}


def began():
    talk(Speaker())
    talk(Late())
    return [same(words(screen()), "iweciwec"), same([n for n, l, m in screen().seen], ["exorad.Speaker"] * 4 + ["exorad.Late"] * 4), same(words(OTHER), "")]


def at(level):
    s = Speaker()
    setLogLevel(level)
    talk(s)
    return same(words(screen()), FROM[level])


def levels():
    out = []
    for level in (10, 20, 30, 40):
        setLogLevel(level)
        screen().seen.clear()
        out.append(at(level))
        disableLogging()
        screen().seen.clear()
        talk(Speaker())
        out.append(same(words(screen()), "ec"))
        enableLogging()
        screen().seen.clear()
        talk(Speaker())
        out.append(same(words(screen()), FROM[level]))
    return out


def filed():
    s = Speaker()
    addLogFile("a.log")
    talk(s)
    out = [same(words(screen()), "iwec"), same(words(FILES["a.log"]), "diwec")]
    disableLogging()
    screen().seen.clear()
    FILES["a.log"].seen.clear()
    talk(s)
    out += [same(words(screen()), "ec"), same(words(FILES["a.log"]), "diwec")]
    enableLogging()
    screen().seen.clear()
    FILES["a.log"].seen.clear()
    talk(s)
    out += [same(words(screen()), "iwec"), same(words(FILES["a.log"]), "diwec")]
    setLogLevel(10)
    screen().seen.clear()
    FILES["a.log"].seen.clear()
    talk(s)
    out += [same(words(screen()), "diwec"), same(words(FILES["a.log"]), "diwec")]
    setLogLevel(30)
    screen().seen.clear()
    FILES["a.log"].seen.clear()
    talk(s)
    return out + [same(words(screen()), "wec"), same(words(FILES["a.log"]), "diwec")]


def filed_later():
    s = Speaker()
    setLogLevel(30)
    addLogFile()
    addLogFile("b.log")
    talk(s)
    disableLogging()
    enableLogging()
    screen().seen.clear()
    talk(s)
    return [same(words(screen()), "wec"), same(words(FILES["exorad.log"]), "diwecdiwec"), same(words(FILES["b.log"]), "diwecdiwec"), 1.0 if len(FILES) == 2 else 0.0]


class Comm:
    def __init__(self, rank):
        self.rank = rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return 4


class First:
    COMM_WORLD = Comm(0)


class Second:
    COMM_WORLD = Comm(1)


def secondary():
    s = Speaker()
    talk(s)
    return [same(words(screen()), "ec")]
'''
STAND_IN = {"logging.getLogger": "getLogger", "logging.StreamHandler": "Sink", "logging.FileHandler": "FileSink", "logging.Formatter": "Format"}


def spoken(ctx):
    """the messages that reach the screen and the log files"""
    from .lists import compare
    where = "exorad/log"
    one = X.K(1.0)

    def go(I, st, fn):
        for n in ("exorad._probe", "exorad.log.logger", "exorad.log"):
            I.run_module(n, st)
        return I.call(I.repo_fn("exorad._probe", fn), [], {}, st)
    for fn, text, n, more in (("began", "messages of a program that asks for nothing", 3, {}), ("levels", "messages at each level, muted and restored", 12, {}), ("filed", "messages on the screen and in a log file", 10, {}),
                              ("filed_later", "messages with two log files", 4, {}), ("secondary", "messages of the other processes", 1, {"mpi4py.MPI": "Second"})):
        repo = ctx.repo.probed(SPOKEN, ext=dict(STAND_IN, **dict({"mpi4py.MPI": "First"}, **more)))
        compare(ctx, ctx.run(text, where, M.Model(1), lambda I, st, fn=fn: go(I, st, fn), stub={"with:log": True}, repo=repo), text, where, [one] * n)
