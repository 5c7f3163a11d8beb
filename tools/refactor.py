"""Behaviour-preserving rewrites of the whole repository, to see that no check minds how the code is written.
usage: refactor.py [NAME...]     (runs every check on a rewritten copy, prints those that are not clean)"""
import ast, copy, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.names = set()

    def fresh(self, p="tmp_"):
        self.n += 1
        return "%s%d" % (p, self.n)


def store(n):
    return ast.Name(n, ast.Store())


def load(n):
    return ast.Name(n, ast.Load())


class Noop(Base):
    """a statement that does nothing in every function"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if ast.get_docstring(f) is not None else 0
        f.body.insert(i, ast.Assign([store("unused_")], ast.Constant(0)))
        f.body.insert(len(f.body) - 1 if isinstance(f.body[-1], ast.Return) else len(f.body), ast.Expr(ast.Constant(None)))
        return f


class ReturnTemp(Base):
    """return x -> r = x; return r"""
    def visit_Return(self, r):
        if r.value is None:
            return r
        return [ast.Assign([store("result_")], r.value), ast.Return(load("result_"))]


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Nest(Base):
    """elif -> else: if"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.orelse = n.orelse + [ast.Pass()]
        return n


class Flip(Base):
    """a < b -> b > a, a == b -> b == a"""
    O = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.O:
            return ast.Compare(n.comparators[0], [self.O[type(n.ops[0])]()], [n.left])
        return n


class Items(Base):
    """for k, v in d.items() -> for k in d: v = d[k]; and .keys() dropped"""
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and not c.args and isinstance(c.func.value, (ast.Name, ast.Attribute)):
            if c.func.attr == "keys":
                n.iter = c.func.value
            if c.func.attr == "items" and isinstance(n.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in n.target.elts):
                k, v = n.target.elts
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(c.func.value), load(k.id), ast.Load())))
                n.target = k
                n.iter = ast.Call(ast.Name("list", ast.Load()), [c.func.value], [])
        return n


class Loops(Base):
    """x = [f for a in b if c] -> a loop that appends"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                t = self.fresh("list_")
                ren = {x.id: x.id + "_" for x in ast.walk(g.target) if isinstance(x, ast.Name)}

                def sub(e):
                    e = copy.deepcopy(e)
                    for x in ast.walk(e):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                    return e
                if any(isinstance(x, (ast.ListComp, ast.Lambda, ast.GeneratorExp)) for x in ast.walk(s.value.elt)):
                    out.append(s)
                    continue
                inner = [ast.Expr(ast.Call(ast.Attribute(load(t), "append", ast.Load()), [sub(s.value.elt)], []))]
                for c in g.ifs[::-1]:
                    inner = [ast.If(sub(c), inner, [])]
                out.append(ast.Assign([store(t)], ast.List([], ast.Load())))
                out.append(ast.For(sub(g.target), g.iter, inner, []))
                out.append(ast.Assign(s.targets, load(t)))
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class Temps(Base):
    """f(g(x), y) -> a = g(x); f(a, y) in simple statements"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                c = s.value
                if isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in c.args) and not any(isinstance(x, ast.Call) for x in ast.walk(c.func)):
                    ok = True
                    for i, a in enumerate(c.args):
                        if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)) and ok:
                            t = self.fresh()
                            out.append(ast.Assign([store(t)], a))
                            c.args[i] = load(t)
                    for k in c.keywords:
                        if isinstance(k.value, (ast.Call, ast.BinOp, ast.Subscript)):
                            t = self.fresh()
                            out.append(ast.Assign([store(t)], k.value))
                            k.value = load(t)
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class Operands(Temps):
    """x = a * b -> l = a; r = b; x = l * r"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                for f in ("left", "right"):
                    v = getattr(s.value, f)
                    if not isinstance(v, (ast.Name, ast.Constant)):
                        t = self.fresh()
                        out.append(ast.Assign([store(t)], v))
                        setattr(s.value, f, load(t))
            out.append(s)
        return out


class Commute(Base):
    """a * b -> b * a"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        def txt(x):
            return any(isinstance(y, (ast.List, ast.ListComp)) or isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x))
        if isinstance(n.op, ast.Mult) and not txt(n.left) and not txt(n.right):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Square(Base):
    """x ** 2 -> x * x"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class Locals(Base):
    """local variables renamed"""
    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f]
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob - args
        calls = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
        if inner or "locals" in calls or "vars" in calls or "__import__" in calls:
            return f
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_renamed"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = x.name + "_renamed"
        return f


class Impl(Base):
    """the body of each method moved to a helper method"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            ok = isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self" \
                and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(f))
            if not ok:
                out.append(f)
                continue
            g = copy.deepcopy(f)
            g.name = "_do_" + c.name + "_" + f.name
            g.args.defaults = []
            call = ast.Call(ast.Attribute(load("self"), g.name, ast.Load()), [load(a.arg) for a in f.args.args[1:]], [])
            doc = [f.body[0]] if ast.get_docstring(f) is not None else []
            f.body = doc + [ast.Return(call)]
            out += [f, g]
        c.body = out
        return c


class Outside(Base):
    """the body of each function moved to another function of the module"""
    def visit_Module(self, m):
        out = []
        for f in m.body:
            ok = isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))
            if not ok:
                out.append(f)
                continue
            g = copy.deepcopy(f)
            g.name = "_do_" + f.name
            g.args.defaults = []
            f.body = [ast.Return(ast.Call(load(g.name), [load(a.arg) for a in f.args.args], []))]
            out += [g, f]
        m.body = out
        return m


class Fstring(Base):
    """'..{}..'.format(a) -> f'..{a}..'"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
            t = n.func.value.value
            p = t.split("{}")
            if "{" in "".join(p) or "}" in "".join(p) or len(p) != len(n.args) + 1:
                return n
            vs = []
            for i, x in enumerate(p):
                if x:
                    vs.append(ast.Constant(x))
                if i < len(n.args):
                    vs.append(ast.FormattedValue(n.args[i], -1, None))
            return ast.JoinedStr(vs)
        return n


class Dicts(Base):
    """{k: v} -> built entry by entry (assigned to a name)"""
    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Dict) and all(k is not None for k in s.value.keys):
            t = s.targets[0].id
            d = self.fresh("dict_")
            return [ast.Assign([store(d)], ast.Dict([], []))] + [ast.Assign([ast.Subscript(load(d), k, ast.Store())], v) for k, v in zip(s.value.keys, s.value.values)] + [ast.Assign([store(t)], load(d))]
        return s

    def visit_ClassDef(self, c):
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                self.visit(f)
        return c

    def visit_Module(self, m):
        for f in m.body:
            if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
                self.visit(f)
        return m


class Aug(Base):
    """x = x + y on plain names of texts and counters is left; a.b += c -> a.b = a.b + c only for subscripts of dictionaries is unsafe: only names bound to constants"""
    def visit_FunctionDef(self, f):
        consts = {s.targets[0].id for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant)}
        for n in ast.walk(f):
            for fld in ("body", "orelse"):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for i, s in enumerate(b):
                        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in consts:
                            b[i] = ast.Assign([store(s.target.id)], ast.BinOp(load(s.target.id), s.op, s.value))
        return f


class IfExp(Base):
    """x = a if c else b -> if c: x = a else: x = b"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [ast.Assign(s.targets, s.value.orelse)])
        return s


class ToIfExp(Base):
    """if c: x = a else: x = b -> x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == len(n.orelse) == 1 and all(isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 for b in (n.body, n.orelse)):
            a, b = n.body[0], n.orelse[0]
            if ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], (ast.Name, ast.Attribute)):
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
        return n


class Guard(Base):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for t in n.test.values[::-1]:
                b = [ast.If(t, b, [])]
            return b[0]
        return n


class Early(Base):
    """def f: ...; if c: A (last) -> if not c: return; A"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        s = f.body[-1]
        if f.name != "__init__" and isinstance(s, ast.If) and not s.orelse:
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        return f


class Index(Base):
    """for x in xs -> for i in range(len(ys)) over a list made of xs"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        a, i = self.fresh("seq_"), self.fresh("idx_")
        t = n.target
        return [ast.Assign([store(a)], ast.Call(load("list"), [n.iter], [])),
                ast.For(store(i), ast.Call(load("range"), [ast.Call(load("len"), [load(a)], [])], []), [ast.Assign([t], ast.Subscript(load(a), load(i), ast.Load()))] + n.body, [])]


class While(Base):
    """for x in xs -> while loop with a counter, when there is no continue"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        a, i = self.fresh("seq_"), self.fresh("idx_")
        return [ast.Assign([store(a)], ast.Call(load("list"), [n.iter], [])), ast.Assign([store(i)], ast.Constant(0)),
                ast.While(ast.Compare(load(i), [ast.Lt()], [ast.Call(load("len"), [load(a)], [])]),
                          [ast.Assign([n.target], ast.Subscript(load(a), load(i), ast.Load()))] + n.body + [ast.AugAssign(store(i), ast.Add(), ast.Constant(1))], [])]


class Get(Base):
    """k in d.keys() -> k in d;  not x in y -> x not in y"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        c = n.comparators[0]
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "keys" and not c.args:
            n.comparators[0] = c.func.value
        return n


class Isinst(Base):
    """isinstance(a, (X, Y)) -> isinstance(a, X) or isinstance(a, Y)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and n.args[1].elts:
            ps = [ast.Call(load("isinstance"), [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts]
            return ast.BoolOp(ast.Or(), ps) if len(ps) > 1 else ps[0]
        return n


class Attrs(Base):
    """self.x.y(...) through a local alias: values of attributes read twice in a function are read once is unsafe; here methods are bound first"""
    def visit_Expr(self, s):
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, (ast.Name, ast.Attribute)):
            t = self.fresh("call_")
            return [ast.Assign([store(t)], c.func), ast.Expr(ast.Call(load(t), c.args, c.keywords))]
        return s


class Kwargs(Base):
    """parameters of tasks and numpy calls left; unit conversions written (a).to(u) -> a.to(unit=u)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "to" and len(n.args) == 1 and not n.keywords:
            return ast.Call(n.func, [], [ast.keyword("unit", n.args[0])])
        return n


class Trace(Base):
    """type annotations on every local assignment of a name"""
    def visit_FunctionDef(self, f):
        seen = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for i, s in enumerate(f.body):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in seen:
                f.body[i] = ast.AnnAssign(s.targets[0], load("object"), s.value, 1)
        return f


class Walrus(Base):
    """if f(x): -> if (c := f(x)):"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Call):
            n.test = ast.NamedExpr(store(self.fresh("test_")), n.test)
        return n


class With(Base):
    """try: X except E: Y -> X inside a nested function? no: a finally that does nothing"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if not n.finalbody:
            n.finalbody = [ast.Pass()]
        return n


class Reraise(Base):
    """every function body of a method inside try/except Exception: raise"""
    def visit_FunctionDef(self, f):
        if f.name == "__init__":
            return f
        doc = [f.body[0]] if ast.get_docstring(f) is not None else []
        body = f.body[len(doc):]
        if body:
            f.body = doc + [ast.Try(body, [ast.ExceptHandler(load("Exception"), None, [ast.Raise(None, None)])], [], [])]
        return f


ALL = [Noop, ReturnTemp, Invert, Nest, Flip, Items, Loops, Temps, Operands, Commute, Square, Locals, Impl, Outside, Fstring, Dicts, Aug, IfExp, ToIfExp, Guard, Early, Index, While, Get, Isinst,
       Attrs, Kwargs, Trace, Walrus, With, Reraise]


def rewrite(cls, dst, only=None):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree("/repo/exorad", dst + "/exorad")
    for x in os.listdir("/repo"):
        if os.path.isfile("/repo/" + x):
            shutil.copy("/repo/" + x, dst)
    n = 0
    for r, _, fs in os.walk(dst + "/exorad"):
        for f in fs:
            p = os.path.join(r, f)
            if f.endswith(".py") and f not in ("ascii_art.py",) and (only is None or any(o in p for o in only)):
                t = ast.parse(open(p).read())
                a = ast.unparse(t)
                t2 = ast.fix_missing_locations(cls().visit(t))
                b = ast.unparse(t2)
                compile(b, p, "exec")
                if a != b:
                    n += 1
                    open(p, "w").write(b)
    return n


def check(dst, ids):
    def one(i):
        r = subprocess.run(["python3-vt", V + "/check.py", i], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=dst))
        bad = [l.strip() for l in r.stdout.splitlines() if "violated:" in l or "undecided:" in l]
        return i, r.returncode, bad, r.stderr[-200:]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, ids))


if __name__ == "__main__":
    ids = [c["property_id"] if "property_id" in c else c.get("property", c.get("id")) for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    want = [a for a in sys.argv[1:] if not a.startswith("C")]
    only = [a for a in sys.argv[1:] if a.startswith("C") and a[1:].isdigit()]
    ids = only or ids
    for cls in ALL:
        if want and cls.__name__ not in want:
            continue
        dst = "/tmp/rf_%s" % cls.__name__
        n = rewrite(cls, dst)
        for i, rc, bad, err in check(dst, ids):
            if rc or bad:
                print("%-10s %s rc=%d %d: %s %s" % (cls.__name__, i, rc, len(bad), bad[0][:190] if bad else "", err if rc == 2 else ""), flush=True)
        print("%-10s %d files done" % (cls.__name__, n), flush=True)
        if "KEEP" not in os.environ:
            shutil.rmtree(dst)
