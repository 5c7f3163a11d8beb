"""Helpers for rules over the syntax tree: constants, control flow, call resolution."""
import ast


def const_str(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def calls(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            yield n


def mark_aliases(fn):
    """calls through a local that only ever stands for self.name are calls of self.name"""
    binds = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            binds.setdefault(n.targets[0].id, []).append(n.value)
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, ast.arg):
            stores[n.arg] = stores.get(n.arg, 0) + 1
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            b = binds.get(n.func.id, [])
            if len(b) == stores.get(n.func.id, 0) and b and all(isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" for v in b) \
                    and len({v.attr for v in b}) == 1:
                n.alias = b[0].attr


def self_call(n, name=None):
    """self.name(...) -> name"""
    if isinstance(n, ast.Call) and getattr(n, "alias", None):
        return n.alias if name is None or n.alias == name else None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls"):
        return n.func.attr if name is None or n.func.attr == name else None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
        return n.func.attr if name is None or n.func.attr == name else None
    return None


class Must:
    """Paths of a function body along which an event has surely happened.
    event(stmt_or_expr_node) -> bool for one call node; calls to helpers are resolved by helper(call) -> FunctionDef or None."""

    def __init__(self, event, helper, noreturn=lambda c: False):
        self.event, self.helper, self.noreturn = event, helper, noreturn
        self.memo = {}

    def func(self, fn):
        """(event happened on every normal exit, a normal exit exists)"""
        if fn in self.memo:
            return self.memo[fn]
        self.memo[fn] = (False, True)   # recursion: nothing known
        self.exits = []
        saved = self.exits
        st = self.block(fn.body, False)
        ends = [x for x in saved]
        if st is not None:
            ends.append((st, fn))
        self.memo[fn] = (all(e for e, _ in ends), bool(ends))
        bad = [n for e, n in ends if not e]
        self.memo[fn] = (not bad, bool(ends))
        self.last_bad = bad
        return self.memo[fn]

    def expr(self, e, st):
        """state after evaluating an expression (short-circuits taken as not evaluated)"""
        if e is None or st is None:
            return st
        for n in self.eager(e):
            if isinstance(n, ast.Call):
                if self.event(n):
                    st = True
                else:
                    h = self.helper(n)
                    if h is not None:
                        ex = self.exits
                        ok, live = self.func(h)
                        self.exits = ex
                        if ok:
                            st = True
                        if not live:
                            return None
                if self.noreturn(n):
                    return None
        return st

    def eager(self, e):
        yield e
        if isinstance(e, ast.BoolOp):
            kids = e.values[:1]
        elif isinstance(e, ast.IfExp):
            kids = [e.test]
        elif isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            kids = []
        else:
            kids = list(ast.iter_child_nodes(e))
        for k in kids:
            yield from self.eager(k)

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a and b

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        if isinstance(s, ast.Return):
            st = self.expr(s.value, st)
            if st is not None:
                self.exits.append((st, s))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loops[-1].append(st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            st = self.expr(s.iter if not isinstance(s, ast.While) else s.test, st)
            self.loops = getattr(self, "loops", [])
            self.loops.append([])
            body = self.block(s.body, st)
            br = self.loops.pop()
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            out = None if forever else st   # zero iterations
            for x in br:
                out = self.join(out, x)
            if not forever:
                out = self.block(s.orelse, out) if s.orelse else out
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.expr(it.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            body = self.block(s.body, st)
            out = self.block(s.orelse, body) if body is not None else None
            for h in s.handlers:
                # the body may fail before anything happened
                out = self.join(out, self.block(h.body, st))
            if s.finalbody:
                f = self.block(s.finalbody, False)
                if f is None:
                    return None
                if out is not None and f:
                    out = True
                if f:
                    self.exits[:] = [(True, n) if self.inside(s, n) else (e, n) for e, n in self.exits]
            return out
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out = st
            for c in s.cases:
                out = self.join(out, self.block(c.body, st))
            return out
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                st = self.expr(e, st)
                if st is None:
                    return None
        return st

    @staticmethod
    def inside(tree, node):
        return any(n is node for b in tree.body + [x for h in tree.handlers for x in h.body] + tree.orelse for n in ast.walk(b))
