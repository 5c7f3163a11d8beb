"""Loops that walk a sequence by position read as loops over its elements:
    for i in range(len(S)): ... S[i] ...      ->  for i, e in enumerate(S): ... e ...
    i = 0; while i < len(S): ... S[i] ...; i += 1   likewise
when S is a local name that the body neither rebinds nor uses in any other way, so that both read the same elements in the same order."""
import ast


def _lenof(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name):
        return n.args[0].id
    return None


def _uses(body, i, s):
    """positions S[i] in the body, or None when S or i is used in a way that forbids the rewriting"""
    hits = []
    ok = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == s and isinstance(n.slice, ast.Name) and n.slice.id == i and isinstance(n.ctx, ast.Load):
                hits.append(n)
                ok.add(id(n.value))
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                return None
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id == s and id(n) not in ok:
                return None
            if isinstance(n, ast.Name) and n.id == i and not isinstance(n.ctx, ast.Load):
                return None
    return hits


class _Sub(ast.NodeTransformer):
    def __init__(self, hits, name):
        self.h, self.name = {id(x) for x in hits}, name

    def visit_Subscript(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Name(self.name, ast.Load()), n) if id(n) in self.h else n


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.fn = None

    def visit_FunctionDef(self, n):
        old, self.fn = self.fn, n
        self.generic_visit(n)
        self.fn = old
        return n

    def build(self, n, i, s, body, orelse):
        hits = _uses(body, i, s)
        if not hits:
            return None
        self.k += 1
        e = "_element_%d" % self.k
        # the common first statement `x = S[i]` becomes the loop variable itself
        body = [_Sub(hits, e).visit(b) for b in body]
        used = any(isinstance(x, ast.Name) and x.id == i for b in body for x in ast.walk(b)) or self.outside(n, i)
        if used:
            t = ast.Tuple([ast.Name(i, ast.Store()), ast.Name(e, ast.Store())], ast.Store())
            it = ast.Call(ast.Name("enumerate", ast.Load()), [ast.Name(s, ast.Load())], [])
        else:
            t, it = ast.Name(e, ast.Store()), ast.Name(s, ast.Load())
        r = ast.For(t, it, body, orelse, None)
        ast.copy_location(r, n)
        for x in (t, it):
            for y in ast.walk(x):
                ast.copy_location(y, n)
        ast.fix_missing_locations(r)
        return r

    def outside(self, loop, i):
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.fn or ast.Module([], [])))

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(n.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and not it.keywords:
            s = _lenof(it.args[0])
            if s and self.fn is not None:
                return self.build(n, n.target.id, s, n.body, n.orelse) or n
        return n

    def block(self, body):
        out = []
        for j, x in enumerate(body):
            if isinstance(x, ast.While) and self.fn is not None and not x.orelse and len(x.body) > 1:
                r = self.counted(x, out)
                if r is not None:
                    out.append(r)
                    continue
            out.append(x)
        return out

    def counted(self, w, before):
        t = w.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        s = _lenof(b)
        if not isinstance(a, ast.Name) or not s:
            return None
        i = a.id
        last = w.body[-1]
        one = lambda n: isinstance(n, ast.Constant) and n.value == 1 and not isinstance(n.value, bool)
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and one(last.value):
            pass
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == i and one(last.value.right):
            pass
        else:
            return None
        if any(isinstance(x, ast.Continue) for b_ in w.body for x in ast.walk(b_)):
            return None
        if self.outside(w, i):
            return None
        for p in reversed(before):
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i:
                v = p.value
                if isinstance(v, ast.Constant) and v.value == 0 and not isinstance(v.value, bool):
                    return self.build(w, i, s, w.body[:-1], [])
                return None
            if any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(p)):
                return None
        return None

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


def normal(tree):
    return Loops().visit(tree)
