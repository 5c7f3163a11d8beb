"""C01: the contract of a task."""
from .. import expr as X
from .. import model as M
from .stellar import M_num

PROBE = '''
from exorad.tasks.task import Task


class Probe(Task):
    def __init__(self):
        self.addTaskParam("a", "first", 3.0)
        self.addTaskParam("b", "second")

    def execute(self):
        self.set_output((self.get_task_param("a"), self.get_task_param("b")))


class Bare(Task):
    def __init__(self):
        pass

    def execute(self):
        self.set_output(5.0)


class Other(Task):
    def __init__(self):
        self.addTaskParam("c", "another", 1.0)
        self.addTaskParam("a", "first", 9.0)

    def execute(self):
        self.set_output((self.get_task_param("c"), self.get_task_param("a")))


def both(x, y):
    return Probe()(a=x, b=y)


def default(x, y):
    return Probe()(b=y)


def missing(x, y):
    return Probe()(a=x)


def again(x, y):
    p = Probe()
    first = p(a=x, b=y)
    second = p(b=x)
    return first, second, p(a=y, b=x)


def mixed(x, y):
    p = Probe()
    q = Other()
    r = Probe()
    first = p(b=y)
    second = q(a=x)
    return first, second, r(a=y, b=x), p.get_output()


def unknown(x, y):
    try:
        return Probe()(a=x, z=y)
    except ValueError:
        return "refused"


def unknown_only(x, y):
    try:
        return Probe()(z=y)
    except ValueError:
        return "refused"


def bare(x, y):
    return Bare()()


def bare_unknown(x, y):
    try:
        return Bare()(z=y)
    except Exception:
        return "refused"


class Echo(Task):
    def __init__(self):
        self.addTaskParam("v", "value")

    def execute(self):
        self.set_output(self.get_task_param("v"))


def side(x, y):
    p = Probe()
    q = Other()
    return p(b=y), q(a=x)


def foreign(x, y):
    p = Probe()
    q = Other()
    try:
        return p(a=x, c=y)
    except ValueError:
        return "refused"


def falsy(x, y):
    return Echo()(v=0.0), len(Echo()(v={})), Echo()(v=y)


def after_error(x, y):
    p = Probe()
    try:
        p(z=y)
    except ValueError:
        pass
    return p(b=x)


def kept(x, y):
    d = {"a": x, "b": y}
    Probe()(**d)
    e = {"b": y}
    Probe()(**e)
    return len(d), len(e), d["a"], e["b"]


def defaults(x, y):
    p = Probe()
    first = p(b=y)
    second = p(b=x)
    third = p()
    q = Probe()
    return first, second, third, p(a=x), p(), q()


def nones(x, y):
    p = Probe()
    return p(a=None, b=None), p(a=x, b=None), p(a=None, b=y)


def empties(x, y):
    p = Probe()
    first = p(a=0.0, b={})
    second = p(a="", b=False)
    return first[0], len(first[1]), second[0] == "" and second[1] is False, p(b=x)


def unknown_nothing(x, y):
    try:
        return Probe()(z=None)
    except ValueError:
        return "refused"


def after_refusal(x, y):
    p = Probe()
    try:
        p(a=x, z=y)
    except ValueError:
        pass
    return p(), p(a=y)


class Failing(Task):
    def __init__(self):
        self.addTaskParam("a", "first", 3.0)
        self.addTaskParam("b", "second", 4.0)

    def execute(self):
        if self.get_task_param("b") == "stop":
            raise RuntimeError
        self.set_output((self.get_task_param("a"), self.get_task_param("b")))


def after_failure(x, y):
    p = Failing()
    try:
        p(a=x, b="stop")
    except RuntimeError:
        pass
    return p(b=y), p(a=y), p()


class Outer(Task):
    def __init__(self):
        self.addTaskParam("a", "first", 1.0)
        self.addTaskParam("b", "second", 2.0)

    def execute(self):
        inner = Probe()
        got = inner(a=self.get_task_param("b"), b=self.get_task_param("a"))
        more = None
        if self.get_task_param("b") is not None:
            more = Outer()(a=self.get_task_param("b"), b=None)
        self.set_output((got, more, self.get_task_param("a"), self.get_task_param("b")))


def nested(x, y):
    a, b, c, d = Outer()(a=x, b=y)
    return a, b[0], b[2], b[3], c, d


class Late(Task):
    def __init__(self):
        self.addTaskParam("a", "first")

    def execute(self):
        self.set_output(self.get_task_param("a"))


class Child(Probe):
    def __init__(self):
        super().__init__()
        self.addTaskParam("c", "third", 7.0)
        self.addTaskParam("a", "first", 8.0)

    def execute(self):
        super().execute()
        a, b = self.get_output()
        self.set_output((a, b, self.get_task_param("c")))


def inherited(x, y):
    c = Child()
    p = Probe()
    return c(b=x), p(b=y), c(a=x, b=y, c=y), p()
'''
K3 = X.K(3.0)


def flat(I, v, st):
    from ..interp import Tup, Ref
    if isinstance(v, Tup):
        return [w for x in v.items for w in flat(I, x, st)]
    if v is None or isinstance(v, str):
        return [v]
    n = I.num(v, st)
    return [n.e if n is not None else v]


TRUE = True
MORE = {"defaults": "one task called repeatedly without its parameters", "nones": "parameters given as None", "empties": "parameters given as zero or empty", "unknown_nothing": "unknown parameter given as None refused",
        "after_refusal": "a task called again after a refusal", "after_failure": "a task called again after a failure", "nested": "a task calling another of its kind", "inherited": "a task that adds to another's parameters"}


def call(ctx):
    where = "exorad/tasks/task.py Task.__call__"
    repo = ctx.repo.probed(PROBE)
    x, y = X.var("x"), X.var("y")
    cases = {"both": [x, y], "default": [K3, y], "missing": [x, None], "again": [x, y, K3, x, y, x],
             "mixed": [K3, y, X.K(1.0), x, y, x, K3, y], "unknown": ["refused"], "unknown_only": ["refused"], "bare": [X.K(5.0)], "bare_unknown": ["refused"],
             "after_error": [K3, x], "side": [K3, y, X.K(1.0), x], "foreign": ["refused"], "falsy": [X.K(0.0), X.K(0), y], "kept": [X.K(2), X.K(1), x, y],
             "defaults": [K3, y, K3, x, K3, None, x, None, K3, None, K3, None], "nones": [None, None, x, None, None, y], "empties": [X.K(0.0), X.K(0), TRUE, K3, x],
             "unknown_nothing": ["refused"], "after_refusal": [K3, None, y, None], "after_failure": [K3, y, y, X.K(4.0), K3, X.K(4.0)],
             "nested": [y, x, None, y, y, None, x, y], "inherited": [X.K(8.0), x, X.K(7.0), K3, y, x, y, y, K3, None]}
    text = {"both": "parameters given", "default": "parameter left to its default", "missing": "parameter without default left out", "again": "one task called repeatedly",
            "mixed": "several tasks side by side", "unknown": "unknown parameter refused", "unknown_only": "unknown parameter refused, others left out", "bare": "task without parameters",
            "bare_unknown": "unknown parameter of a task without parameters refused", "side": "two tasks side by side", "foreign": "parameter of another task refused", "falsy": "empty outputs", "after_error": "call after a refused one", "kept": "caller's dictionary of parameters"}
    text.update(MORE)
    for k, want in cases.items():
        m = M.Model(1)
        for v in "xy":
            m.exact[v] = M.n(v, isq=False)
        r = ctx.run(text[k], where, m, lambda I, st: I.call(I.repo_fn("exorad._probe", k), [I.region("x"), I.region("y")], {}, st), repo=repo)
        if r is None:
            continue
        I, st, v = r
        got = flat(I, v, st)
        if len(got) != len(want):
            ctx.res.bad(text[k], where, "%d values where %d are expected" % (len(got), len(want)))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            name = text[k] if len(want) == 1 else "%s: value %d" % (text[k], i + 1)
            if w is TRUE:
                ctx.res.check(g is True or g is X.TRUE, name, where, "computed %r where %r is required" % (g, w))
            elif w is None or isinstance(w, str):
                if isinstance(g, X.E) or g is None or isinstance(g, str):
                    ctx.res.check(g == w if not isinstance(g, X.E) else False, name, where, "computed %r where %r is required" % (g, w))
                else:
                    ctx.res.und(name, where, "value %r" % (g,))
            elif isinstance(g, X.E):
                ctx.eq(name, where, g, w)
            elif g is None or isinstance(g, str):
                ctx.res.bad(name, where, "computed %r where a value is required" % (g,))
            else:
                ctx.res.und(name, where, "value %r" % (g,))


# ------------------------------------------------------------------ rules over every task of the package
import ast                                            # noqa: E402
from ..rules import const_str, calls, self_call, mark_aliases, Must  # noqa: E402


def declared(repo, c):
    """{name: has a default} declared by the constructor of a task; None when it cannot be read off"""
    out = {}
    k, init = repo.find_method(c, "__init__")
    todo, seen = [init] if init is not None else [], set()
    while todo:
        fn = todo.pop()
        if fn in seen:
            continue
        seen.add(fn)
        for n in calls(fn):
            f = self_call(n)
            if f == "addTaskParam":
                kw = {x.arg: x.value for x in n.keywords}
                a = n.args[0] if n.args else kw.get("param_name")
                nm = const_str(a) if a is not None else None
                if nm is None:
                    return None
                out[nm] = len(n.args) > 2 or "default" in kw
            elif f == "__init__":
                k2, f2 = repo.find_method(c, "__init__", after=k)
                if f2 is not None:
                    todo.append(f2)
            elif f:
                k2, f2 = repo.find_method(c, f)
                if f2 is not None and k2.name != "Logger":
                    todo.append(f2)
            elif any(isinstance(x, ast.Name) and x.id == "self" for x in list(n.args) + [y.value for y in n.keywords]) or n.args and isinstance(n.args[0], ast.Starred):
                return None
        if any(isinstance(n, ast.Attribute) and n.attr == "_task_params" and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)):
            return None
    return out


def constructed(ctx, c):
    """the same, from what the constructor does; None when it depends on anything"""
    out = {}

    def add(lib, fn, args, kw, st, node):
        a = dict(zip(("self", "param_name", "param_description", "default"), args), **kw)
        if not isinstance(a.get("param_name"), str) or st.guard:
            out[None] = True
        else:
            out[a["param_name"]] = "default" in a
        return None
    I = ctx.interp(M.Model(1), {"Task.addTaskParam": add})
    try:
        I.instantiate(c, [], {}, I.start(), c.node)
    except Exception:
        return None
    return None if None in out or I.unks else out


def task_classes(repo):
    base = repo.find_class("Task")
    return [c for m in repo.modules.values() for c in m.classes.values() if c is not base and base in repo.mro(c)]


def wiring(ctx):
    repo = ctx.repo
    dec = {}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                mark_aliases(n)
    for c in task_classes(repo):
        where = "%s %s" % (repo.rel(c.mod.path), c.name)
        d = declared(repo, c)
        if d is None:
            d = constructed(ctx, c)
        dec[c] = d
        if d is None:
            ctx.res.und("declared parameters of %s" % c.name, where, "not constants")
            continue
        # parameters read are declared
        bad = []
        for k in repo.mro(c):
            if k.name in ("Task", "Logger"):
                continue
            for fn in k.methods.values():
                for n in calls(fn):
                    if self_call(n, "get_task_param"):
                        a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
                        nm = const_str(a) if a is not None else None
                        if nm is not None and nm not in d:
                            bad.append("%s (line %d)" % (nm, n.lineno))
        ctx.res.check(not bad, "%s reads only the parameters it declares" % c.name, where, "undeclared: " + ", ".join(bad))
        # an output on every normal path
        k, ex = repo.find_method(c, "execute")
        if ex is None or k.name == "Task":
            continue

        def helper(n, c=c):
            f = self_call(n)
            if f:
                return repo.find_method(c, f)[1]
            return None
        mu = Must(lambda n: bool(self_call(n, "set_output")), helper)
        # an assignment to the output counts as setting it
        sets = any(isinstance(n, ast.Attribute) and n.attr == "_output" and isinstance(n.ctx, ast.Store) for q in repo.mro(c) if q.name != "Task" for f in q.methods.values() for n in ast.walk(f))
        ok, live = mu.func(ex)
        if sets and not ok:
            ctx.res.und("%s sets its output on every path" % c.name, where, "output assigned directly")
        else:
            at = ", ".join("line %d" % n.lineno for n in getattr(mu, "last_bad", [])[:3])
            ctx.res.check(ok, "%s sets its output on every path" % c.name, where, "a path of execute ends without an output (%s)" % at)
    # call sites
    for m in repo.modules.values():
        scopes = [(m.tree, None)]
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                scopes.append((n, n))
        glob = instances(repo, m, m.tree.body, {}, {})
        for c in list(m.classes.values()):
            for fn in c.methods.values():
                sites(ctx, repo, m, fn, glob, dec, c.name + "." + fn.name)
        for fn in m.defs.values():
            sites(ctx, repo, m, fn, glob, dec, fn.name)


def resolve_cls(repo, m, name, imps):
    if name in imps:
        r = repo.resolve_import(imps[name])
    else:
        r = repo.lookup(m.name, name)
    return r[1] if r and r[0] == "class" else None


def instances(repo, m, body, imps, base):
    out = dict(base)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                c = resolve_cls(repo, m, n.value.func.id, imps)
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if c is not None:
                            out[t.id] = c if out.get(t.id, c) is c else None
                        else:
                            out[t.id] = None
    return out


def sites(ctx, repo, m, fn, glob, dec, qual):
    imps = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            m.add_import(n, imps)
    inst = instances(repo, m, fn.body, imps, glob)
    for n in calls(fn):
        c = None
        if isinstance(n.func, ast.Name):
            c = inst.get(n.func.id)
        elif isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Name):
            c = resolve_cls(repo, m, n.func.func.id, imps)
        if c is None or dec.get(c) is None:
            continue
        where = "%s %s" % (repo.rel(m.path), qual)
        name = "call of %s in %s" % (c.name, qual)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            ctx.res.und(name, where, "parameters not written out")
            continue
        given = {k.arg for k in n.keywords}
        bad = []
        if n.args:
            bad.append("parameters given by position")
        bad += ["unknown parameter %s" % k for k in sorted(given - set(dec[c]))]
        bad += ["parameter %s left out" % k for k, dflt in dec[c].items() if not dflt and k not in given]
        ctx.res.check(not bad, name, where, "line %d: %s" % (n.lineno, "; ".join(bad)))
