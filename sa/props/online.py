"""C20: the check for a newer version."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from . import logs

SRC = logs.PROBE.replace('''    debug = warning = error = critical = info
''', '''    debug = critical = info

    def warning(self, m, *a, **k):
        NET.said = NET.said + [m]

    error = warning
''') + '''

import requests
import socket
from exorad.utils.version_control import VersionControl, VersionError


class Net:
    said = []
    socket = "ok"
    get = "ok"
    body = "ok"
    text = ""
    kept = 1.0
    patient = 1.0
    asked = ""
    left = 0.0


NET = Net()


def fails(how):
    if how == "timeout":
        raise requests.exceptions.Timeout("slow")
    if how == "connection":
        raise requests.exceptions.ConnectionError("gone")
    if how == "other":
        raise requests.exceptions.RequestException("odd")
    if how == "oserror":
        raise OSError("network")
    if how == "refused":
        raise ConnectionRefusedError("refused")
    if how == "name":
        raise socket.gaierror("name")
    if how == "value":
        raise ValueError("no json")


class Link:
    def __init__(self, *a, **k):
        NET.left = NET.left + 1.0

    def close(self):
        NET.left = NET.left - 1.0

    def connect(self, *a):
        fails(NET.socket)

    def connect_ex(self, *a):
        fails(NET.socket)
        return 0

    def settimeout(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def create_connection(address, timeout=None, *a, **k):
    if timeout is None:
        NET.patient = 0.0
    fails(NET.socket)
    return Link()


def default_timeout(*a):
    NET.kept = 0.0


class Answer:
    def __init__(self, code):
        self.status_code = code
        self.ok = code == 200

    def raise_for_status(self):
        if self.status_code != 200:
            raise requests.exceptions.HTTPError("status")

    def json(self, *a, **k):
        fails(NET.body)
        if NET.body == "empty":
            return {}
        if NET.body == "null":
            return {"content": None}
        if NET.body == "list":
            return [{"content": "x"}]
        return {"content": NET.text}


def get(url, *a, **k):
    NET.asked = url
    if k.get("timeout") is None:
        NET.patient = 0.0
    fails(NET.get)
    return Answer(int(NET.get) if NET.get in ("404", "304", "403", "500", "204") else 200)


def b64(x, *a, **k):
    if x is None:
        raise TypeError("argument should be bytes")
    if NET.body == "garbled":
        raise ValueError("padding")
    if NET.body == "binary":
        return b"\\xff\\xfe"
    return x.encode("utf-8")


def ask(socket_, get_, body, text, version, force=False):
    NET.said = []
    NET.socket = socket_
    NET.get = get_
    NET.body = body
    NET.text = text
    VersionControl(package_url="https://github.com/ExObsSim/ExoRad2-public", current_version=version, force=force)
    return [1.0 * len(NET.said), NET.kept, NET.patient, NET.left]


def silent(socket_, get_, body, text, version):
    r = ask(socket_, get_, body, text, version)
    return [1.0 if r[0] == 0.0 else 0.0, r[1], r[2], r[3]]


def told(text, version):
    ask("ok", "ok", "ok", text, version)
    all_ = " | ".join(NET.said)
    return [1.0 if len(NET.said) > 0 else 0.0] + [1.0 if w in all_ else 0.0 for w in ("[2.3.10]", "new thing", "[2.3.1]", "old thing", "[2.1.120]", "older thing", "ancient thing", "pending thing", "[Unreleased]")] + [1.0 if NET.asked == "https://api.github.com/repos/ExObsSim/ExoRad2-public/contents/CHANGELOG.md" else 0.0]


def newest(text, version):
    ask("ok", "ok", "ok", text, version)
    all_ = " | ".join(NET.said)
    rest = all_.replace("## [2.3.10] - 2026-01-01 [release]", "")
    return [1.0 if "2.3.10" in rest else 0.0, 1.0 if version in rest else 0.0, 0.0 if "release" in rest else 1.0, 1.0 * all_.count("- small repairs"), 1.0 * all_.count("## [2.3.10]")]


def forced(text, version):
    try:
        ask("ok", "ok", "ok", text, version, True)
    except VersionError:
        return 1.0
    return 0.0
'''
EXT = {"socket.create_connection": "create_connection", "socket.socket": "Link", "socket.setdefaulttimeout": "default_timeout", "requests.get": "get", "base64.b64decode": "b64", "logging.getLogger": "getLogger"}
W = "exorad/utils/version_control.py VersionControl"
LOG = """# Changelog

## [Unreleased]
- pending thing

## [2.3.10] - 2026-01-01 [release]
### Added
- small repairs
- new thing, a repair of what came with 2.1.12

## [2.3.1] - 2025-01-01
- old thing
### Added
- small repairs

## [2.1.120] - 2024-01-01
- older thing

## [2.1.12] - 2023-01-01
- ancient thing
"""


def run(ctx, fn, text, args, where=W):
    repo = ctx.repo.probed(SRC, ext=EXT)
    return ctx.run(text, where, M.Model(1), lambda I, st: I.call(I.repo_fn("exorad._probe", fn), [Num(X.K(a)) if isinstance(a, bool) else a for a in args], {}, st), repo=repo, stub={"with:log": True})


def checked(ctx):
    from .lists import compare
    ok = [X.K(v) for v in (1.0, 1.0, 1.0, 0.0)]
    for how in ("oserror", "refused", "name", "timeout_"):
        if how != "timeout_":
            compare(ctx, run(ctx, "silent", "no network (%s)" % how, [how, "ok", "ok", LOG, "2.3.1"]), "no network (%s)" % how, W, ok)
    for how in ("timeout", "connection", "other", "404", "304", "403", "500", "204"):
        t = "no answer (%s)" % how
        compare(ctx, run(ctx, "silent", t, ["ok", how, "ok", LOG, "2.3.1"]), t, W, ok)
    for how in ("value", "empty", "null", "list", "garbled", "binary"):
        t = "an answer that is no changelog (%s)" % how
        compare(ctx, run(ctx, "silent", t, ["ok", "ok", how, LOG, "2.3.1"]), t, W, ok)
    for text in ("", "nothing", "# Changelog"):
        t = "a changelog without versions (%r)" % text
        compare(ctx, run(ctx, "silent", t, ["ok", "ok", "ok", text, "2.3.1"]), t, W, ok)
    for version, n in (("2.3.10", 0), ("2.3.1", 2), ("2.1.120", 4), ("2.1.12", 6), ("2.0.1", 7), ("2.3.9", 7), ("3.0.0", 7), ("2.3.1.dev0", 7)):
        t = "what is told to version %s" % version
        want = [float(n > 0)] + [float(i < n) for i in range(9)] + [1.0]
        compare(ctx, run(ctx, "told", t, [LOG, version]), t, W, [X.K(x) for x in want])
        if n:
            t = "the versions told to version %s" % version
            compare(ctx, run(ctx, "newest", t, [LOG, version]), t, W, [X.K(x) for x in (1.0, 1.0, 1.0, 1.0 if n == 2 else 2.0, 1.0)])
        t = "version %s when the newest is required" % version
        compare(ctx, run(ctx, "forced", t, [LOG, version]), t, W, [X.K(float(n > 0))])
