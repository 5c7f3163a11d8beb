"""Arithmetic, comparisons and array operations."""
import functools
from . import expr as X
from .units import same_unit, parse_unit, dims, closed


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv"}

class LibNum:
    # ------------------------------------------------------------ grids
    def joingrid(self, *ns):
        """(grid, mixed?) of an elementwise operation"""
        g = None
        mixed = False
        for n in ns:
            if n is None or not n.e.wl:
                continue
            if n.grid is None:
                continue
            if g is None:
                g = n.grid
            elif g != n.grid:
                mixed = True
        return g, mixed

    def elementwise(self, e, *ns):
        g, mixed = self.joingrid(*ns)
        if mixed:
            alt = [n.grid[1] for n in ns if n is not None and type(n.grid) is tuple and n.grid[:1] == ("phi",)]
            if alt:
                # one grid or another: each case by itself
                r = [self.elementwise(X.pick(e, alt[0], v), *[self.gridin(n, alt[0], v) for n in ns if n is not None]) for v in (True, False)]
                return X.ite(alt[0], r[0][0], r[1][0]), r[0][1] if r[0][1] == r[1][1] else ("phi", alt[0], r[0][1], r[1][1])
            if e.op in ("eq", "ne", "k") and e.isb:
                # grids that are not known to be one do not coincide
                return X.K(e.op == "ne" or e.op == "k" and not e.args[0]), g
            e = X.mk("mix", e, rows=e.rows, wl=e.wl, isb=False)
        return e, g

    @staticmethod
    def gridin(n, c, v):
        """a number in the case that c is v"""
        g = n.grid
        while type(g) is tuple and g[:1] == ("phi",) and g[1] is c:
            g = g[2 if v else 3]
        return n if g is n.grid else n.but(e=X.pick(n.e, c, v), grid=g)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st, node):
        from .interp import Phi, UnitV, StrV, Tup, Ref, Num, Unk, Ext
        I = self.I
        if not all(isinstance(x, Num) and x.isq is not True and x.e.op == "k" for x in (a, b)):
            I.risky += 1
        from .lib import RepV, StrCol
        for x in (a, b):
            if isinstance(x, Unk):
                return x
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and op in DUNDER and I.o(x).kind == "inst" and I.o(x).cls is not None:
                k2, m = I.repo.find_method(I.o(x).cls, pre + DUNDER[op] + "__")
                if m is not None:
                    from .interp import FnV
                    return I.call_fn(FnV(m, k2.mod.name, k2), [x, y], {}, st, node)
        # strings and lists
        if op == "Add":
            if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
                return self.joinparts([self.tostr(a, st), self.tostr(b, st)])
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if self.islist(a) and self.islist(b):
                return self.mklist(st, tuple(I.rd(st, (a.oid, "items"), ())) + tuple(I.rd(st, (b.oid, "items"), ())), conds=True)
        if op == "Mod" and isinstance(a, (str, StrV)):
            return self.strfmt(a, b, st)
        if op in ("Mult",):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and isinstance(y, Num):
                    kk = self.key(y)
                    if isinstance(kk, int) and not isinstance(kk, bool) and kk < 10000:
                        return x * kk
                if self.islist(x) and not isinstance(y, UnitV):
                    n = self.N(y, st)
                    if n is not None and n.isq is False and not n.e.wl and n.e.rows is None:
                        kk = self.key(n)
                        if isinstance(kk, int) and not isinstance(kk, bool):
                            return self.mklist(st, tuple(I.rd(st, (x.oid, "items"), ())) * kk, conds=True)
                        its = I.rd(st, (x.oid, "items"), ())
                        if len(its) == 1 and n.size is not None:
                            return RepV(its[0][0], n)
                        if n.unit is None and n.size is None and n.e.op not in ("k",):
                            pass
        if op in ("BitAnd", "BitOr", "BitXor", "Sub") and isinstance(a, Ref) and isinstance(b, Ref) and "set" in (I.o(a).kind, I.o(b).kind):
            return self.setop(op, a, b, st, node)
        if op in ("Sub", "BitAnd") and isinstance(a, Ref) and isinstance(b, Ref) and I.o(a).kind == I.o(b).kind == "dict":
            return self.setop(op, a, b, st, node)       # views of keys
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.N(a, st), self.N(b, st)
            if x is not None and y is not None and x.e.isb and y.e.isb:
                f = {"BitAnd": X.AND, "BitOr": X.OR}.get(op)
                if f is not None:
                    e, g = self.elementwise(f(x.e, y.e), x, y)
                    return I.fresh(st, Num(e, None, False, g, isidx=x.isidx and y.isidx))
            return I.unk("bit operation", node)
        if isinstance(a, UnitV) and isinstance(b, UnitV):
            if op == "Mult":
                return UnitV(X.mul(a.e, b.e))
            if op == "Div":
                return UnitV(X.div(a.e, b.e))
        if isinstance(a, UnitV) and op == "Pow":
            n = self.N(b, st)
            return UnitV(X.pw(a.e, n.e)) if n is not None else I.unk("unit power", node)
        if isinstance(b, UnitV) or isinstance(a, UnitV):
            other = a if isinstance(b, UnitV) else b
            if op == "LShift" and isinstance(b, UnitV):
                n = self.N(a, st)
                if n is not None:
                    if n.isq is True:
                        return I.fresh(st, n.but(unit=b.e))
                    return I.fresh(st, n.but(e=X.mul(n.e, b.e), unit=b.e, isq=True, size=None))
            if isinstance(other, Phi):
                return I.split(other, st, lambda o, s: self.binop(op, o, b, s, node) if other is a else self.binop(op, a, o, s, node))
            if op == "Mult" and self.islist(other):
                n = self.N(other, st)
                vals = [self.N(x, st) for x, _ in self.iterate(other, st)] if n is not None else []
                if vals and all(x is not None and x.isq is True for x in vals):
                    # a list of quantities is converted to the unit
                    return I.cell(st, n.but(unit=(b if other is a else a).e, isq=True, size=None))
            if isinstance(other, str):
                return UnitV(X.mul(a.e if isinstance(a, UnitV) else b.e, parse_unit(other)))
        for x in (a, b):
            if isinstance(x, Phi):
                na = self.N(x, st)
                if na is None:
                    return I.split(x, st, lambda o, s: self.binop(op, o if x is a else a, o if x is b else b, s, node))
        if isinstance(a, StrCol) or isinstance(b, StrCol):
            return I.unk("operation on strings", node)
        x, y = self.N(a, st), self.N(b, st)
        if x is None or y is None:
            if a is None or b is None:
                I.pend("TypeError", st, node)
                from .interp import Diverge
                raise Diverge()
            return I.unk("operands of %s: %r %r" % (op, a, b), node)
        return I.fresh(st, self.arith(op, x, y, st, node))

    def islist(self, v):
        from .interp import Ref
        return isinstance(v, Ref) and self.I.o(v).kind == "list"

    def uu(self, n):
        return n.unit if n.isq is not False and n.unit is not None else X.ONE

    def arith(self, op, x, y, st, node=None):
        from .interp import Num
        if x.isq is False and y.isq is False:
            isq = False
        elif x.isq is True or y.isq is True or "col" in (x.isq, y.isq):
            isq = True
        else:
            isq = None
        if isq is True and "col" in (x.isq, y.isq) and True not in (x.isq, y.isq):
            isq = "col"
        length = None
        unit = None
        if op == "Add" or op == "Sub":
            e = X.add(x.e, y.e) if op == "Add" else X.sub(x.e, y.e)
            unit = x.unit if x.isq is not False else y.unit
        elif op == "Mult" and x.e.isb and y.e.isb and (x.e.wl or x.e.rows is not None) and (y.e.wl or y.e.rows is not None):
            e = X.AND(x.e, y.e)   # truth values multiply to truth values
        elif op == "Mult":
            e = X.mul(x.e, y.e)
            unit = X.mul(self.uu(x), self.uu(y)) if isq is not False else None
            length = x.length if x.length is not None else y.length
        elif op == "Div":
            e = X.div(x.e, y.e)
            unit = X.div(self.uu(x), self.uu(y)) if isq is not False else None
            length = x.length
        elif op == "Pow":
            e = X.pw(x.e, y.e)
            unit = X.pw(self.uu(x), y.e) if isq is not False else None
            if isq is False and X.isk(x.e, 10) and y.e.op == "gridpts" and y.e.args[0] == "linspace":
                # ten to the power of evenly spaced exponents: the logarithmic grid
                return Num(X.mk("gridpts", "logspace", *y.e.args[1:], wl=True), None, False, ("logspace",) + tuple(y.e.args[1:]))
        elif op == "FloorDiv":
            e = X.fn("floordiv", x.e, y.e)
            unit = X.ONE if isq is not False else None
        elif op == "Mod":
            e = X.fn("mod", x.e, y.e)
            unit = x.unit
        elif op == "MatMult":
            return Num(X.unk("matrix product"), None, None)
        else:
            return Num(X.unk("operator " + op), None, None)
        if x.e.has_unk or y.e.has_unk:
            pass
        e, g = self.elementwise(e, x, y)
        return Num(e, unit, isq, g, length)

    def inplace(self, opn, x, val, st, node):
        """x op= val"""
        from .interp import Num, Ref, Phi, StrV, Tup, Unk, UnitV
        I = self.I
        op = type(opn).__name__
        if isinstance(x, Ref):
            o = I.o(x)
            if o.kind == "list" and op == "Add":
                I.effect("mutate", x, ".extend", st, node)
                return self.lextend(x, val, st, node)
            if o.kind == "list" and op == "Mult":
                return self.binop(op, x, val, st, node)
            n = I.rd(st, (x.oid, "num"), None)
            if o.kind == "num" or n is not None or (o.kind == "reg" and o.cls is None):
                n = n if n is not None else self.N(x, st)
                if isinstance(val, Phi) or not isinstance(val, UnitV):
                    y = self.N(val, st)
                else:
                    y = self.N(val, st)
                if y is None:
                    return I.unk("in-place operand", node)
                r = self.arith(op, n, y, st, node)
                scalar_raw = n.isq is False and n.e.rows is None and not n.e.wl and n.length is None
                if scalar_raw:
                    return I.fresh(st, r)
                if isinstance(val, UnitV) and n.isq is False:
                    # ndarray *= unit makes a new quantity
                    return I.fresh(st, r)
                if n.e.rows is None and r.e.rows is not None and r.e.rows > 1 or (not n.e.wl and r.e.wl and n.e.rows is not None and n.e.rows > 1):
                    return I.fresh(st, r)
                if n.e.rows is None and not n.e.wl and (r.e.rows is not None or r.e.wl):
                    return I.fresh(st, r)
                if n.isq is False:
                    r = r.but(e=r.e, unit=None, isq=False)
                elif n.isq == "col":
                    r = r.but(isq="col")
                I.effect("inplace", x, "", st, node)
                I.wr(st, (x.oid, "num"), r)
                return x
        return self.binop(op, x, val, st, node)

    # ------------------------------------------------------------ comparisons
    def compare(self, op, a, b, st, node):
        from .interp import Num, Ref, Phi, StrV, Tup, Unk, UnitV, ClsV, Ext
        I = self.I
        if op in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return Num(r if op == "Is" else X.NOT(r))
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st, node)
            return Num(r if op == "In" else X.NOT(r))
        if isinstance(a, Phi) and (self.N(a, st) is None or self.N(a, st).e.has_unk):
            return I.split(a, st, lambda x, s: self.compare(op, x, b, s, node))
        if isinstance(b, Phi) and (self.N(b, st) is None or self.N(b, st).e.has_unk):
            return I.split(b, st, lambda x, s: self.compare(op, a, x, s, node))
        if isinstance(a, Ref) and isinstance(b, Ref) and "set" in (I.o(a).kind, I.o(b).kind):
            x, y = self.settle(a, st, node), self.settle(b, st, node)
            if x is None or y is None:
                return I.unk("set comparison", node)
            le = lambda p, q: I.simp(functools.reduce(X.AND, [X.OR(X.NOT(c), q.get(k, X.FALSE)) for k, c in p.items()], X.TRUE), st)
            eq = X.AND(le(x, y), le(y, x))
            r = {"Eq": lambda: eq, "NotEq": lambda: X.NOT(eq), "LtE": lambda: le(x, y), "GtE": lambda: le(y, x),
                 "Lt": lambda: X.AND(le(x, y), X.NOT(eq)), "Gt": lambda: X.AND(le(y, x), X.NOT(eq))}[op]()
            return Num(r, None, False)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, st, node)
            if isinstance(r, X.E):
                return I.fresh(st, Num(r if op == "Eq" else X.NOT(r))) if (r.rows or r.wl) else Num(r if op == "Eq" else X.NOT(r))
            if r is not None:
                return r if op == "Eq" else I.fresh(st, r.but(e=X.NOT(r.e)))
            return Num(X.bvar("cmp:%r==%r" % (a, b)))
        x, y = self.N(a, st), self.N(b, st)
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)) or x is None or y is None:
            if isinstance(a, str) and isinstance(b, str):
                return Num(X.K({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]))
            return Num(X.bvar("cmp:%s:%r,%r" % (op, a, b)))
        if x.size is not None and y.e.op == "k" or y.size is not None and x.e.op == "k":
            if (x.size or y.size)[0] == "wl":
                big, k = (x, y) if x.size else (y, x)
                kv = k.e.args[0]
                gt = op in ("Gt", "GtE") if x.size else op in ("Lt", "LtE")
                return Num(X.K(bool(gt)))
        if x.size is not None and y.size is not None and x.size[0] == "wl" and y.size[0] == "wl":
            if x.size == y.size:
                return Num(X.K(op in ("LtE", "GtE")))
        e = {"Lt": lambda: X.cmp("lt", x.e, y.e), "LtE": lambda: X.cmp("le", x.e, y.e),
             "Gt": lambda: X.cmp("lt", y.e, x.e), "GtE": lambda: X.cmp("le", y.e, x.e)}[op]()
        e, g = self.elementwise(e, x, y)
        if e.op == "mix":
            e = X.mk("mix", *e.args, rows=e.rows, wl=e.wl, isb=True)
        r = Num(e, None, False, g)
        return I.fresh(st, r) if (e.rows or e.wl) else r

    def is_(self, a, b, st):
        from .interp import Num, Ref, Phi, StrV, Tup, Unk, ClsV, Ext, UnitV
        I = self.I
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Phi):
                c = I.simp(x.cond, st)
                if c.op == "k":
                    return self.is_(x.a if c.args[0] else x.b, y, st)
                return X.ite(c, self.is_(x.a, y, st), self.is_(x.b, y, st))
        if a is None and b is None:
            return X.TRUE
        if a is None or b is None:
            v = b if a is None else a
            if isinstance(v, Unk):
                return X.bvar("unk:isnone:%s" % v.why)
            if isinstance(v, Ref):
                o = I.o(v)
                if o.kind == "reg" and o.cls is None and I.rd(st, (v.oid, "num"), None) is None and o.hint.get("notnone") is None and o.hint.get("isq") is None:
                    return I.simp(X.bvar("isnone:%s" % o.path), st)
            return X.FALSE
        if isinstance(a, Num) and isinstance(b, Num) and a.e.isb and b.e.isb:
            return X.OR(X.AND(a.e, b.e), X.AND(X.NOT(a.e), X.NOT(b.e)))
        if isinstance(b, Num) and b.e.op == "k" and isinstance(b.e.args[0], bool):
            n = self.N(a, st) if not isinstance(a, (str, StrV)) else None
            if isinstance(a, Num) and a.e.op == "k":
                return X.K(a.e.args[0] is b.e.args[0])
            if isinstance(a, Ref) and I.o(a).kind == "reg":
                return X.bvar("is%s:%s" % (b.e.args[0], I.o(a).path))
            return X.FALSE
        if type(a) is type(b):
            return X.K(a == b)
        return X.FALSE

    def dots(self, q):
        from .interp import Ext
        return isinstance(q, Ext) and q.name == "builtins.Ellipsis"

    def equal(self, a, b, st, node):
        """E (boolean), Num or None when undecided"""
        from .interp import Num, Ref, Phi, StrV, Tup, Unk, UnitV, ClsV, Ext
        from .lib import StrCol
        I = self.I
        if a is None or b is None:
            return self.is_(a, b, st)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, UnitV):
                if isinstance(y, (UnitV, str)):
                    ue = y.e if isinstance(y, UnitV) else parse_unit(y)
                    s = same_unit(x.e, ue)
                    if s is None:
                        for v, w in ((x.e, ue), (ue, x.e)):
                            if v.op == "uof" and closed(w):
                                return X.uniteq(v.args[0], w)
                    return X.K(s) if s is not None else X.bvar("unit:%d==%d" % (min(x.e.id, ue.id), max(x.e.id, ue.id)))
                if isinstance(y, Ref) and I.o(y).kind == "reg":
                    return X.bvar("unit:%d==%s" % (x.e.id, I.o(y).path))
        if isinstance(a, StrCol) or isinstance(b, StrCol):
            c, s = (a, b) if isinstance(a, StrCol) else (b, a)
            if isinstance(s, str):
                bad = [x for x in c.items if not isinstance(x, str)]
                if bad:
                    return None
                return Num(X.stack([X.K(x == s) for x in c.items]))
            if isinstance(s, StrCol) and len(s.items) == len(c.items):
                return Num(X.stack([X.K(x == y) for x, y in zip(c.items, s.items)]))
            return None
        if isinstance(a, str) and isinstance(b, str):
            return X.K(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str):
                if isinstance(x, Ref):
                    o = I.o(x)
                    if o.kind == "reg" and o.cls is None:
                        if I.rd(st, (x.oid, "num"), None) is not None or o.hint.get("isq") is not None:
                            return X.FALSE
                        return I.simp(X.eqs(o.path, y), st)
                    return X.FALSE
                if isinstance(x, StrV):
                    return I.simp(X.eqs(repr(x.parts), y), st)
                if isinstance(x, (Num, Tup)):
                    return X.FALSE
        if isinstance(a, StrV) and isinstance(b, StrV) and a == b:
            return X.TRUE
        if isinstance(a, StrV) or isinstance(b, StrV):
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return X.FALSE
            r = X.TRUE
            for x, y in zip(a.items, b.items):
                q = self.equal(x, y, st, node)
                if not isinstance(q, X.E):
                    return None
                r = X.AND(r, q)
            return r
        if isinstance(a, (ClsV, Ext)) or isinstance(b, (ClsV, Ext)):
            return X.K(a == b)
        x, y = self.N(a, st), self.N(b, st)
        if x is None or y is None:
            if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
                return X.TRUE
            return None
        if x.size is not None and y.size is not None:
            if x.size == y.size:
                return X.TRUE
            if x.size[0] == "row" and y.size[0] == "row":
                return X.K(x.size[1] == y.size[1])
            if x.size[0] != y.size[0]:
                return X.FALSE
            return X.bvar("samesize:%s,%s" % tuple(sorted([self.gridname(x.size[1]), self.gridname(y.size[1])])))
        for s, k in ((x, y), (y, x)):
            if s.size is not None and s.size[0] == "wl" and k.e.op == "k":
                return X.FALSE
        e, g = self.elementwise(X.cmp("eq", x.e, y.e), x, y)
        return Num(e, None, False, g) if (e.rows or e.wl) else e

    def contains(self, c, k, st, node):
        """k in c"""
        from .interp import Num, Ref, Phi, StrV, Tup, Unk, BM, UNDEF
        from .lib import StrCol
        I = self.I
        if isinstance(c, Phi):
            cc = I.simp(c.cond, st)
            if cc.op == "k":
                return self.contains(c.a if cc.args[0] else c.b, k, st, node)
            return X.ite(cc, self.contains(c.a, k, st, node), self.contains(c.b, k, st, node))
        if isinstance(k, Phi):
            cc = I.simp(k.cond, st)
            if cc.op == "k":
                return self.contains(c, k.a if cc.args[0] else k.b, st, node)
            return X.ite(cc, self.contains(c, k.a, st, node), self.contains(c, k.b, st, node))
        if isinstance(c, str):
            if isinstance(k, str):
                return X.K(k in c)
            return X.bvar("in:%r,%s" % (k, c))
        if isinstance(c, StrV):
            if isinstance(k, str):
                if any(isinstance(p, str) and k in p for p in c.parts[1:]) and c.parts[0] == "join":
                    return X.TRUE
                return X.bvar("%r in %r" % (k, c.parts))
            return X.bvar("in:%r,%r" % (k, c))
        if isinstance(c, Unk):
            return X.bvar("unk:%s" % c.why)
        if isinstance(c, BM) and c.name == "__dict__":
            kk = self.key(k)
            return I.hasattr(c.recv, kk, st) if isinstance(kk, str) else X.bvar("in __dict__")
        if isinstance(c, StrCol):
            return X.K(k in c.items) if isinstance(k, str) else X.bvar("in:%r" % (k,))
        if isinstance(c, Ref):
            o = I.o(c)
            if o.kind in ("dict", "set", "table"):
                kk = self.key(k)
                ents = dict(I.rd(st, (c.oid, "keys"), ()))
                if kk in ents:
                    return I.simp(ents[kk], st)
                if self.opaque_key(kk) or any(self.opaque_key(q) for q in ents):
                    got = self.bytext(kk, ents, st, node)
                    if got is None:
                        return X.bvar("unk:in:%r" % (kk,))
                    r = X.FALSE
                    for _, eq in got:
                        r = X.OR(r, eq)
                    return r
                return X.FALSE
            if o.kind == "reg":
                kk = self.key(k)
                if "view" in o.hint and o.hint["view"][1] == "keys":
                    from .interp import Ref as R_
                    return self.contains(R_(o.hint["view"][0]), k, st, node)
                if o.hint.get("str_open") or not isinstance(kk, (str, int)):
                    return X.bvar("%r in %s" % (kk, o.path))
                if self.stored(c, kk, st):
                    return X.TRUE
                x = st.store.get((c.oid, "item", kk), UNDEF)
                h = I.hint_fn("%s[%s]" % (o.path, kk))
                base = X.K(h["has"]) if h and h.get("has") is not None else X.has(o.path, kk)
                if isinstance(x, Phi):
                    return X.ite(x.cond, base if x.a is UNDEF else X.TRUE, base if x.b is UNDEF else X.TRUE)
                return I.simp(base, st)
            if o.kind in ("inst",) and o.cls is not None:
                if I.repo.find_method(o.cls, "__contains__")[1] is not None:
                    q = self.N(I.call(I.getattr(c, "__contains__", st, node), [k], {}, st, node), st)
                    if q is not None:
                        return self.I.simp(q.e if q.e.isb else X.NOT(X.cmp("eq", q.e, X.ZERO)), st)
                return X.bvar("in:%r,%d" % (k, c.oid))
        its = self.iterate(c, st, node)
        if its is None:
            return X.bvar("in:%r,%r" % (k, c))
        r = X.FALSE
        for x, cond in its:
            q = self.equal(x, k, st, node)
            if isinstance(q, Num):
                q = q.e
            if q is None:
                q = X.bvar("cmp:%r==%r" % (x, k))
            r = X.OR(r, X.AND(cond, q))
        return r

    # ------------------------------------------------------------ indexing
    def mask_of(self, k, st):
        """boolean Num for a mask-like index"""
        from .interp import Num, Ref, Tup
        I = self.I
        if isinstance(k, Tup) and len(k.items) == 1:
            k = k.items[0]
        n = k if isinstance(k, Num) else None
        if isinstance(k, Ref) and I.o(k).kind in ("num", "list"):
            n = self.N(k, st)
        if n is not None and n.e.isb and (n.e.rows is not None or n.e.wl or n.isidx):
            return n
        return None

    def numitem(self, n, k, st, node):
        from .interp import Num, Ref, Tup, SliceV, Ext
        I = self.I
        if n is None:
            return I.unk("item", node)
        m = self.mask_of(k, st)
        if m is not None:
            cm = self.concrete_mask(m, st)
            if cm is not None and n.e.rows is not None:
                if len(cm) == n.e.rows:
                    return I.cell(st, n.but(e=X.take(n.e, [i for i, b in enumerate(cm) if b]), size=None))
                return I.unk("mask of another length", node)
            e, g = self.elementwise(X.sel(n.e, m.e), n, m)
            return I.cell(st, n.but(e=e, grid=g, size=None))
        if isinstance(k, SliceV):
            lo, hi, stp = self.ckey(k.lo), self.ckey(k.hi), self.ckey(k.step)
            if lo is None and hi is None and stp is None:
                return I.cell(st, n)
            if n.e.rows is not None and not n.e.wl:
                s = self.cslice(k, st)
                if s is not None:
                    return I.cell(st, n.but(e=X.take(n.e, list(range(n.e.rows))[s])))
            if n.e.wl and n.e.rows is None:
                if lo is None and hi is None and stp == -1:
                    return I.cell(st, n.but(e=X.mk("flip", n.e, rows=None, wl=True, isb=n.e.isb)))
                if stp in (None, 1) and lo in (None, 0) and hi == -1:
                    return I.cell(st, n.but(e=X.mk("cut", n.e, wl=True, isb=n.e.isb), grid=("cut", n.grid)))
                if stp in (None, 1) and lo == 1 and hi is None:
                    return I.cell(st, n.but(e=X.mk("shift", n.e, 1, wl=True, isb=n.e.isb), grid=("cut", n.grid)))
            return Num(X.unk("slice @ %s" % I.site(node)), n.unit, n.isq)
        if isinstance(k, Tup):
            ks = [q for q in k.items]
            if not ks:
                return I.fresh(st, n)
            if len(ks) > 1 and any(self.dots(q) for q in ks):
                one = [q for q in ks if not self.dots(q)]
                if len(one) == 1 and self.dots(ks[0]) and (n.e.rows is None or not n.e.wl):
                    return self.numitem(n, one[0], st, node)
                if len(one) == 1 and self.dots(ks[0]) and isinstance(one[0], SliceV):
                    ks = [SliceV(None, None, None), one[0]]
            if len(ks) == 2 and ks[1] is None and isinstance(ks[0], SliceV) and ks[0].lo is None and ks[0].hi is None and ks[0].step is None and not (n.e.rows is not None and n.e.wl):
                return I.fresh(st, n)
            if len(ks) == 2 and n.e.rows is not None and n.e.wl and all(isinstance(q, SliceV) for q in ks) and ks[0].lo is None and ks[0].hi is None and ks[0].step is None:
                lo, hi, stp = self.ckey(ks[1].lo), self.ckey(ks[1].hi), self.ckey(ks[1].step)
                if stp in (None, 1) and lo in (None, 0) and hi == -1:
                    return I.cell(st, n.but(e=X.mk("cut", n.e, rows=n.e.rows, wl=True, isb=n.e.isb), grid=("cut", n.grid)))
                if stp in (None, 1) and lo == 1 and hi is None:
                    return I.cell(st, n.but(e=X.mk("shift", n.e, 1, rows=n.e.rows, wl=True, isb=n.e.isb), grid=("cut", n.grid)))
            if len(ks) == 2 and n.e.rows is not None:
                r = self.numitem(n, ks[0], st, node)
                if isinstance(ks[1], SliceV) and ks[1].lo is None and ks[1].hi is None:
                    return r
            return Num(X.unk("multi-dimensional index @ %s" % I.site(node)), n.unit, n.isq)
        if isinstance(k, Ref) and I.o(k).kind == "list":
            its = [self.key(x) for x, _ in I.rd(st, (k.oid, "items"), ())]
            if all(isinstance(i, int) and not isinstance(i, bool) for i in its) and n.e.rows is not None:
                return I.cell(st, n.but(e=X.take(n.e, [i % n.e.rows for i in its])))
        kn = k if isinstance(k, Num) else (self.N(k, st) if isinstance(k, Ref) else None)
        if kn is None:
            if isinstance(k, str):
                I.pend("IndexError", st, node)
                from .interp import Diverge
                raise Diverge()
            return I.unk("index %r" % (k,), node)
        kk = self.key(kn)
        if isinstance(kk, int) and not isinstance(kk, bool):
            if n.e.rows is not None:
                if not -n.e.rows <= kk < n.e.rows:
                    I.pend("IndexError", st, node)
                    from .interp import Diverge
                    raise Diverge()
                return I.fresh(st, n.but(e=X.el(n.e, kk % n.e.rows), size=None))
            if n.e.wl:
                if kk == 0:
                    return I.fresh(st, n.but(e=X.red("first", n.e, "wl"), grid=None, size=None))
                if kk == -1:
                    return I.fresh(st, n.but(e=X.red("last", n.e, "wl"), grid=None, size=None))
                return I.fresh(st, n.but(e=X.red("item%d" % kk, n.e, "wl"), grid=None, size=None))
            if n.e.op != "unk" and not n.e.has_unk:
                # element of something whose shape is not known
                return I.fresh(st, n.but(e=X.mk("opq", "elem%d" % kk, n.e), size=None))
            return Num(X.unk("element"), n.unit, n.isq)
        if kn.e.op == "argext":
            return I.fresh(st, n.but(e=X.mk("pickrow", n.e, kn.e), grid=None, size=None))
        k = kn.e
        while k.op == "take":
            k = k.args[0]
        if k.op == "order":
            return I.fresh(st, n.but(e=X.gather(n.e, kn.e), size=None))
        if kn.e.op == "argsort" or (kn.e.op == "opq" and kn.e.args[0] in ("argsort", "argmin", "argmax")):
            if kn.e.args[0] == "argsort":
                return I.fresh(st, n.but(e=X.mk("opq", "sorted", n.e, kn.e, rows=n.e.rows, wl=n.e.wl), grid=("sorted", n.grid), size=None))
            return I.fresh(st, n.but(e=X.mk("opq", "pick", X.mk("opq", "curve", X.red("fing", n.e, "wl") if n.e.wl else n.e), X.red("fing", kn.e, "wl") if kn.e.wl else kn.e), grid=None, size=None))
        return Num(X.unk("index %r @ %s" % (kn, I.site(node))), n.unit, n.isq)

    def argext(self, kind, n):
        """position of the extreme element; along the wavelength axis it cannot be told apart from other positions"""
        from .interp import Num
        if n.e.wl or n.e.rows is None:
            return self.opaque_arr(kind, n)
        c = X.const(n.e) or [X.const(x) for x in n.e.args] if n.e.op == "stack" else X.const(n.e)
        if c and all(c):
            c = [v[0] if isinstance(v, list) else v for v in c]
            best = (min if kind == "argmin" else max)(c)
            if sum(abs(v - best) < 1e-9 for v in c) == 1:
                return Num(X.K(c.index(best)))
        v = self.settled(n.e)
        if v is not None and all(x == x for x in v):
            best = (min if kind == "argmin" else max)(v)
            return Num(X.K([abs(x - best) <= 1e-9 * abs(best) for x in v].index(True)))
        return Num(X.mk("argext", kind, n.e))

    def numset(self, n, k, val, st, node):
        """content after x[k] = val"""
        from .interp import Num, SliceV, Ref
        I = self.I
        w = self.N(val, st)
        if w is None:
            return n.but(e=X.unk("assigned item @ %s" % I.site(node)))
        we = w.e
        if n.isq is True and w.isq is False and not X.isk(we, 0) and not we.op == "k":
            pass
        m = self.mask_of(k, st)
        if m is not None:
            e = X.ite(m.e, we, n.e)
            if m.e.op == "stack" and all(q.op == "k" for q in m.e.args) and n.e.rows is not None:
                flags = [q.args[0] for q in m.e.args]
                if we.rows is not None and we.rows == sum(flags) and we.rows != n.e.rows:
                    j = 0
                    es = []
                    for i, f in enumerate(flags):
                        es.append(X.el(we, j) if f else X.el(n.e, i))
                        j += 1 if f else 0
                    e = X.stack(es)
            e, g = self.elementwise(e, n, m)
            return n.but(e=e, grid=g, size=None)
        if isinstance(k, SliceV) and k.lo is None and k.hi is None:
            return n.but(e=X.mul(X.full(X.ONE, n.e.rows, n.e.wl), we))
        if isinstance(k, SliceV) and n.e.rows is not None:
            s = self.cslice(k, st)
            if s is not None:
                idx = list(range(n.e.rows))[s]
                es = [X.el(n.e, i) for i in range(n.e.rows)]
                for j, i in enumerate(idx):
                    es[i] = X.el(we, j) if we.rows is not None else we
                return n.but(e=X.stack(es))
        kn = k if isinstance(k, Num) else (self.N(k, st) if isinstance(k, Ref) else None)
        kk = self.key(kn) if kn is not None else None
        if isinstance(kk, int) and not isinstance(kk, bool) and n.e.rows is not None and -n.e.rows <= kk < n.e.rows:
            es = [X.el(n.e, i) for i in range(n.e.rows)]
            es[kk] = we if we.rows is None else X.el(we, 0)
            return n.but(e=X.stack(es), grid=n.grid if n.grid is not None else w.grid)
        return n.but(e=X.unk("item assignment @ %s" % I.site(node)))

    # ------------------------------------------------------------ reductions
    def axis_of(self, n, axis):
        """'wl' | 'row' | 'all' | None"""
        e = n.e
        if axis is None:
            if e.wl and e.rows is not None:
                return "all"
            return "wl" if e.wl else "row" if e.rows is not None else "all"
        if e.wl and e.rows is not None:
            return "row" if axis in (0, -2) else "wl"
        if e.wl:
            return "wl" if axis in (0, -1) else None
        if e.rows is not None:
            return "row" if axis in (0, -1) else None
        return "ax%d" % axis

    def anyall(self, kind, e, ax):
        if e.op == "k":
            return e
        if e.op == "ite" and e.args[0].rows is None and not e.args[0].wl:
            return X.ite(e.args[0], self.anyall(kind, e.args[1], ax), self.anyall(kind, e.args[2], ax))
        return X.mk("red", kind, e, ax, rows=e.rows if ax == "wl" else None, wl=e.wl if ax == "row" else False, isb=True)

    def reduce(self, kind, v, axis, st, node):
        from .interp import Num
        I = self.I
        n = self.N(v, st)
        if n is None:
            return I.unk("reduction of %r" % (v,), node)
        ax = self.axis_of(n, axis)
        if ax is None:
            return I.unk("axis", node)
        if ax.startswith("ax"):
            return I.fresh(st, n.but(e=X.opq(kind + ax, n.e), size=None))
        e = n.e
        if kind in ("any", "all"):
            return Num(self.anyall(kind, e, ax))
        if e.rows is None and not e.wl:
            if kind in ("sum", "mean", "max", "min"):
                return I.fresh(st, n.but(e=X.opq(kind, e) if e.op == "var" and False else e))
            return I.fresh(st, n.but(e=X.opq(kind, e)))
        if kind in ("max", "min", "ptp"):
            from .interp import Diverge
            if e.rows == 0:
                I.pend("ValueError", st, node)
                raise Diverge()
            if e.rows is not None and not e.wl and X.has_op(e, "sel"):
                # the extreme of no elements
                none = I.simp(X.mk("red", "all", X.mk("fn:isnan", e, rows=e.rows, wl=False, isb=True), ax, rows=None, wl=False, isb=True), st)
                if none is X.TRUE:
                    I.pend("ValueError", st, node)
                    raise Diverge()
                if none is not X.FALSE:
                    I.pend("ValueError", st.copy().assume(none, True), node)
                    st.assume(none, False)
        unit = n.unit
        r = X.red(kind, e, ax)
        return I.fresh(st, Num(r, unit, n.isq, n.grid if ax == "row" else None))


from .interp import Num  # noqa: E402
