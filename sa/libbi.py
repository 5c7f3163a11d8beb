"""Python's built-in functions."""
import builtins
import math
from . import expr as X


class LibBi:
    def b_len(self, args, kw, st, node):
        from .interp import Num, Ref, Tup, Phi
        from .lib import StrCol
        I = self.I
        v = args[0]
        if isinstance(v, Phi):
            return I.split(v, st, lambda x, s: self.b_len([x], kw, s, node))
        if isinstance(v, str):
            return Num(X.K(len(v)))
        if isinstance(v, Tup):
            return Num(X.K(len(v.items)))
        if isinstance(v, StrCol):
            return Num(X.K(len(v.items)), size=("row", len(v.items)))
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind == "table":
                n = self.nrows(v, st)
                return Num(X.K(n), size=("row", n)) if n is not None else Num(X.atom("n:table"))
            its = None
            if o.kind == "list":
                its = I.rd(st, (v.oid, "items"), ())
            elif o.kind in ("dict", "set"):
                its = I.rd(st, (v.oid, "keys"), ())
            if its is not None:
                n = X.ZERO
                for _, c in its:
                    n = X.add(n, X.ite(I.simp(c, st), X.ONE, X.ZERO))
                if n.op == "k":
                    n = X.K(int(n.args[0]))
                return Num(n)
            if o.kind == "inst" and o.cls is not None:
                k, m = I.repo.find_method(o.cls, "__len__")
                if m is not None:
                    from .interp import FnV
                    return I.call_fn(FnV(m, k.mod.name, k), [v], {}, st, node)
        if v is None:
            from .interp import Diverge
            I.pend("TypeError", st, node)
            raise Diverge()
        n = self.N(v, st)
        if n is not None:
            if n.isidx and n.e.isb and n.e.rows is not None and not n.e.wl:
                return self.sizes(n)[0]
            if n.e.rows is not None:
                return Num(X.K(n.e.rows), size=("row", n.e.rows))
            if n.e.wl:
                return self.wlsize(n)
        return Num(X.atom("len:%r" % (v,))) if isinstance(v, Ref) else I.unk("len of %r" % (v,), node)

    def b_range(self, args, kw, st, node):
        from .interp import Num
        ks = [self.key(self.N(a, st) or a) for a in args]
        if all(isinstance(k, int) for k in ks) and len(range(*ks)) <= 400:
            return self.mklist(st, [Num(X.K(i)) for i in range(*ks)])
        n = self.N(args[-1 if len(args) < 3 else 1], st)
        if n is not None and (len(args) == 1 or len(args) == 2 and isinstance(ks[0], int)):
            lo = ks[0] if len(args) == 2 else 0
            b = X.span(n.e)
            if b and b[1] - lo <= 60:
                return self.mklist(st, [(Num(X.K(i)), X.cmp("lt", X.K(i), n.e)) for i in range(lo, int(b[1]))], conds=True)
        return self.I.unk("range", node)

    def b_enumerate(self, args, kw, st, node):
        from .interp import Num, Tup
        its = self.iterate(args[0], st, node)
        if its is None:
            return self.I.unk("enumerate", node)
        s = self.key(self.arg(args, kw, 1, "start", Num(X.K(0))))
        i = X.K(s) if isinstance(s, int) else X.ZERO
        out = []
        for x, c in its:
            out.append((Tup([Num(i), x]), c))
            i = X.add(i, X.ite(c, X.ONE, X.ZERO))
            if i.op == "k":
                i = X.K(int(i.args[0]))
        return self.mklist(st, out, conds=True)

    def b_zip(self, args, kw, st, node):
        from .interp import Tup
        from .lib import RepV
        cols = []
        n = None
        for a in args:
            if isinstance(a, RepV):
                cols.append(a)
                continue
            its = self.iterate(a, st, node)
            if its is None:
                return self.I.unk("zip", node)
            cols.append(its)
            n = len(its) if n is None else min(n, len(its))
        if n is None:
            return self.I.unk("zip of repeats", node)
        if any(not isinstance(c, RepV) and any(k is not X.TRUE for _, k in c) for c in cols):
            base = next(c for c in cols if not isinstance(c, RepV))
            if not all(isinstance(c, RepV) or (len(c) == len(base) and all(p[1] is q[1] for p, q in zip(c, base))) for c in cols):
                return self.I.unk("zip of conditional lists", node)
            return self.mklist(st, [(Tup([c.item if isinstance(c, RepV) else c[i][0] for c in cols]), base[i][1]) for i in range(n)], conds=True)
        return self.mklist(st, [Tup([c.item if isinstance(c, RepV) else c[i][0] for c in cols]) for i in range(n)])

    def b_reversed(self, args, kw, st, node):
        its = self.iterate(args[0], st, node)
        if its is None:
            return self.I.unk("reversed", node)
        return self.mklist(st, list(its)[::-1], conds=True)

    def b_list(self, args, kw, st, node):
        if not args:
            return self.mklist(st, [])
        its = self.iterate(args[0], st, node)
        if its is None:
            from .interp import Ref
            v = args[0]
            if isinstance(v, Ref) and self.I.o(v).kind == "reg":
                return self.copyval(v, st, st, False)
            n = self.N(v, st)
            if n is not None and n.e.wl:
                return self.I.cell(st, n)
            return self.I.unk("list of %r" % (v,), node)
        return self.mklist(st, its, conds=True)

    def b_tuple(self, args, kw, st, node):
        from .interp import Tup
        if not args:
            return Tup([])
        its = self.iterate(args[0], st, node)
        if its is None or any(c is not X.TRUE for _, c in its):
            return self.b_list(args, kw, st, node)
        return Tup([x for x, _ in its])

    def b_set(self, args, kw, st, node):
        its = self.iterate(args[0], st, node) if args else []
        if its is None:
            return self.I.unk("set", node)
        return self.mklist(st, its, conds=True, kind="set")

    b_frozenset = b_set

    def b_dict(self, args, kw, st, node):
        from .interp import Ref, Tup
        I = self.I
        r = self.mkdict(st, [])
        if args:
            es = self.dict_entries(args[0], st)
            if es is not None:
                for k, c in es:
                    if c is not X.FALSE:
                        self.dset(r, k, self.getitem(args[0], k, st.copy(), node), st, c)
            else:
                v = args[0]
                its = self.iterate(v, st, node)
                if its is None or not all(isinstance(x, Tup) and len(x.items) == 2 for x, _ in its):
                    if isinstance(v, Ref) and I.o(v).kind == "reg":
                        return self.copyval(v, st, st, False)
                    return I.unk("dict of %r" % (v,), node)
                for x, c in its:
                    self.dset(r, self.key(x.items[0]), x.items[1], st, c)
        for k, v in kw.items():
            self.dset(r, k, v, st)
        return r

    def b_dict_fromkeys(self, args, kw, st, node):
        its = self.iterate(args[0], st, node)
        if its is None:
            return self.I.unk("dict.fromkeys", node)
        r = self.mkdict(st, [])
        for x, c in its:
            self.dset(r, self.key(x), args[1] if len(args) > 1 else None, st, c)
        return r

    def b_sorted(self, args, kw, st, node):
        its = self.iterate(args[0], st, node)
        if its is not None and all(isinstance(x, str) for x, _ in its) and "key" not in kw:
            rev = self.key(kw.get("reverse", False)) is True
            return self.mklist(st, sorted(its, key=lambda p: p[0], reverse=rev), conds=True)
        if its is not None and 0 < len(its) <= 4 and "key" not in kw and all(c is X.TRUE for _, c in its):
            xs = [x for x, _ in its]
            if all((m := self.N(x, st)) is not None and m.e.rows is None and not m.e.wl and not m.e.isb for x in xs):
                # a sorting network of pairwise minima and maxima
                for i in range(len(xs)):
                    for j in range(len(xs) - 1 - i):
                        p = [xs[j], xs[j + 1]]
                        xs[j], xs[j + 1] = self._mm("min", p, st, node), self._mm("max", p, st, node)
                if self.key(kw.get("reverse", False)) is True:
                    xs = xs[::-1]
                return self.mklist(st, xs)
        return self.I.unk("sorted", node)

    def b_map(self, args, kw, st, node):
        from .lib import RepV
        I = self.I
        z = self.b_zip(args[1:], {}, st, node)
        its = self.iterate(z, st, node)
        if its is None:
            return I.unk("map", node)
        out = []
        for x, c in its:
            s = st if c is X.TRUE else st.copy().assume(c, True)
            v = I.call(args[0], list(x.items), {}, s, node)
            if c is not X.TRUE:
                st.become(I.merge(s, st.copy().assume(c, False)))
            out.append((v, c))
        return self.mklist(st, out, conds=True)

    def b_filter(self, args, kw, st, node):
        I = self.I
        its = self.iterate(args[1], st, node)
        if its is None:
            return I.unk("filter", node)
        out = []
        for x, c in its:
            t = x if args[0] is None else I.call(args[0], [x], {}, st, node)
            k = X.AND(c, I.simp(I.truth(t, st, node), st))
            if k is not X.FALSE:
                out.append((x, k))
        return self.mklist(st, out, conds=True)

    def b_any(self, args, kw, st, node, isany=True):
        from .interp import Num, Ref
        I = self.I
        its = self.iterate(args[0], st, node)
        if its is None:
            n = self.N(args[0], st)
            if n is not None and n.e.wl:
                return self.reduce("any" if isany else "all", args[0], None, st, node)
            return I.unk("any/all", node)
        r = X.FALSE if isany else X.TRUE
        for x, c in its:
            t = I.simp(I.truth(x, st, node), st)
            r = X.OR(r, X.AND(c, t)) if isany else X.AND(r, X.OR(X.NOT(c), t))
        return Num(r)

    def b_all(self, args, kw, st, node):
        return self.b_any(args, kw, st, node, False)

    def b_sum(self, args, kw, st, node):
        I = self.I
        v = args[0]
        its = self.iterate(v, st, node)
        if its is None:
            n = self.N(v, st)
            if n is not None and (n.e.wl or n.e.rows is not None):
                return self.reduce("sum", v, 0 if n.e.rows is not None and n.e.wl else None, st, node)
            return I.unk("sum", node)
        from .interp import Num
        acc = self.arg(args, kw, 1, "start", Num(X.K(0)))
        for x, c in its:
            nx = self.binop("Add", acc, x, st, node)
            acc = nx if c is X.TRUE else I.mkphi(c, nx, acc)
        return acc

    def _minmax(self, kind, args, kw, st, node):
        from .interp import Num
        I = self.I
        if len(args) == 1:
            its = self.iterate(args[0], st, node)
            if its is None:
                return self.reduce(kind, args[0], None, st, node)
            if any(c is not X.TRUE for _, c in its) or "key" in kw:
                return I.unk(kind, node)
            vals = [x for x, _ in its]
        else:
            vals = args
        if kw and "default" not in kw:
            return I.unk(kind, node)
        ns = [self.N(x, st) if not isinstance(x, str) else None for x in vals]
        if not ns or any(n is None for n in ns):
            return I.unk(kind, node)
        r = ns[0]
        for n in ns[1:]:
            c = X.cmp("lt", r.e, n.e)
            r = I.itenum(c, n, r) if kind == "max" else I.itenum(X.cmp("lt", n.e, r.e), n, r)
        return I.fresh(st, r)

    def b_max(self, args, kw, st, node):
        return self._minmax("max", args, kw, st, node)

    def b_min(self, args, kw, st, node):
        return self._minmax("min", args, kw, st, node)

    def b_abs(self, args, kw, st, node):
        return self.np_abs(args, kw, st, node)

    def b_pow(self, args, kw, st, node):
        return self.binop("Pow", args[0], args[1], st, node)

    def b_float(self, args, kw, st, node):
        from .interp import Num, StrV, Ref, Diverge
        I = self.I
        v = args[0] if args else Num(X.ZERO)
        if isinstance(v, str):
            try:
                return Num(X.K(float(v)))
            except ValueError:
                I.pend("ValueError", st, node)
                raise Diverge()
        if isinstance(v, StrV):
            return Num(X.atom("float:%r" % (v.parts,)))
        n = self.N(v, st)
        if n is None:
            return I.unk("float of %r" % (v,), node)
        if n.e.isb:
            return Num(X.ite(n.e, X.ONE, X.ZERO))
        if n.e.rows == 1 and not n.e.wl and (X.const(n.e) or n.e.op == "stack"):
            n = n.but(e=X.el(n.e, 0), grid=None)
        if n.isq is False:
            return n.but(size=None)
        return Num(self.raw(n))

    def b_int(self, args, kw, st, node):
        from .interp import Num, StrV
        if args and isinstance(args[0], str):
            from .interp import Diverge
            base = self.N(args[1], st).e if len(args) > 1 and self.N(args[1], st) is not None else X.K(10)
            if base.op != "k":
                return Num(X.unk("int in a base"))
            try:
                return Num(X.K(int(args[0], int(base.args[0]))))
            except ValueError:
                self.I.pend("ValueError", st, node)
                raise Diverge()
        r = self.b_float(args, kw, st, node)
        n = self.N(r, st)
        if n is None:
            return r
        a = self.N(args[0], st) if args and not isinstance(args[0], (str, StrV)) else None
        if a is not None and a.size is not None:
            return a
        if n.e.op == "stack" and len(n.e.args) == 1:
            n = n.but(e=n.e.args[0])
        if n.e.op == "k":
            try:
                return Num(X.K(int(n.e.args[0])))
            except (ValueError, OverflowError):
                return Num(X.unk("int"))
        return Num(X.fn("int", n.e), length=None)

    def b_bool(self, args, kw, st, node):
        from .interp import Num
        return Num(self.I.truth(args[0], st, node)) if args else Num(X.FALSE)

    def b_str(self, args, kw, st, node):
        return self.tostr(args[0], st) if args else ""

    def b_repr(self, args, kw, st, node):
        return self.tostr(args[0], st)

    def b_round(self, args, kw, st, node):
        n = self.N(args[0], st)
        return self.I.fresh(st, n.but(e=X.mul(X.fn("round", self.raw(n)), self.uu(n)))) if n is not None and len(args) == 1 else self.I.unk("round", node)

    def b_print(self, args, kw, st, node):
        return None

    def b_id(self, args, kw, st, node):
        """objects that live together have different ids"""
        from .interp import Ref, Num, ClsV
        x = args[0]
        if isinstance(x, Ref):
            return Num(X.K(140000000000 + 16 * x.oid))
        return self.I.unk("id", node)

    def b_callable(self, args, kw, st, node):
        from .interp import Num, FnV, Bound, ClsV, Ext, BM, PartialV, Interp1
        return Num(X.K(isinstance(args[0], (FnV, Bound, ClsV, Ext, BM, PartialV, Interp1))))

    def b_iter(self, args, kw, st, node):
        return args[0]

    def b_next(self, args, kw, st, node):
        from .interp import Diverge
        I = self.I
        its = self.iterate(args[0], st, node)
        if its is None:
            return I.unk("next", node)
        acc = args[1] if len(args) > 1 else None
        if not its and len(args) < 2:
            I.pend("StopIteration", st, node)
            raise Diverge()
        for x, c in reversed(its):
            acc = x if c is X.TRUE else I.mkphi(c, x, acc)
        return acc

    def b_type(self, args, kw, st, node):
        from .interp import Ref, ClsV, Ext, StrV, Tup, UnitV, Num
        v = args[0]
        if isinstance(v, Ref):
            o = self.I.o(v)
            if o.cls is not None and not isinstance(o.cls, str):
                return ClsV(o.cls)
            if o.kind in ("list", "dict", "set"):
                return Ext("builtins." + o.kind)
            n = self.N(v, st)
            if n is not None and n.isq is not None:
                return Ext("astropy.units.Quantity" if n.isq else "numpy.ndarray")
        if isinstance(v, (str, StrV)):
            return Ext("builtins.str")
        if v is None:
            return Ext("builtins.NoneType")
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        if isinstance(v, UnitV):
            return Ext("astropy.units.Unit")
        if isinstance(v, Num) and v.isq is not None:
            return Ext("astropy.units.Quantity" if v.isq else "builtins.float")
        return self.I.unk("type of %r" % (v,), node)

    def b_hasattr(self, args, kw, st, node):
        from .interp import Num
        k = self.key(args[1])
        if not isinstance(k, str):
            return Num(X.bvar("hasattr:%r" % (k,)))
        return Num(self.I.simp(self.I.hasattr(args[0], k, st), st))

    def b_getattr(self, args, kw, st, node):
        from .interp import Phi
        I = self.I
        k = self.key(args[1])
        if isinstance(k, Phi):
            return I.split(k, st, lambda x, s: self.b_getattr([args[0], x] + list(args[2:]), kw, s, node))
        if not isinstance(k, str):
            return I.unk("getattr", node)
        if len(args) < 3:
            return I.getattr(args[0], k, st, node)
        c = I.simp(I.hasattr(args[0], k, st), st)
        if c is X.FALSE:
            return args[2]
        if c is X.TRUE:
            return I.getattr(args[0], k, st, node)
        s = st.copy().assume(c, True)
        s2 = st.copy().assume(c, False)
        x = I.getattr(args[0], k, s, node)
        st.become(I.merge(s, s2))
        return I.mkphi(c, x, args[2])

    def b_setattr(self, args, kw, st, node):
        from .interp import Phi
        I = self.I
        k = self.key(args[1])
        if isinstance(k, Phi):
            return I.split(k, st, lambda x, s: self.b_setattr([args[0], x, args[2]], kw, s, node))
        if isinstance(k, str):
            I.setattr(args[0], k, args[2], st, node)
        else:
            I.unk("setattr", node)
        return None

    def b_delattr(self, args, kw, st, node):
        k = self.key(args[1])
        if isinstance(k, str):
            self.I.delattr(args[0], k, st, node)
        return None

    def b_vars(self, args, kw, st, node):
        from .interp import BM
        return BM("__dict__", args[0]) if args else self.I.unk("vars", node)

    def b_property(self, args, kw, st, node):
        return self.I.unk("property", node)

    def b_object(self, args, kw, st, node):
        return self.I.new("inst")

    def b_slice(self, args, kw, st, node):
        from .interp import SliceV
        a = list(args)
        if len(a) == 1:
            a = [None, a[0]]
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_open(self, args, kw, st, node):
        return self.I.new("reg", path="open(%r)" % (self.tostr(args[0], st),), hint={"open": True})

    def b_eval(self, args, kw, st, node):
        return self.I.unk("eval", node)

    def b_isinstance(self, args, kw, st, node):
        from .interp import Num, Phi, Tup
        v, t = args
        I = self.I
        if isinstance(v, Phi):
            c = I.simp(v.cond, st)
            if c.op == "k":
                return self.b_isinstance([v.a if c.args[0] else v.b, t], kw, st, node)
            a, b = self.b_isinstance([v.a, t], kw, st, node), self.b_isinstance([v.b, t], kw, st, node)
            return Num(X.ite(c, a.e, b.e))
        ts = list(t.items) if isinstance(t, Tup) else [t]
        r = X.FALSE
        for x in ts:
            r = X.OR(r, self.isinst(v, x, st))
        return Num(I.simp(r, st))

    NUMPY = {"float32": ("floating", "inexact", "number", "generic"), "float16": ("floating", "inexact", "number", "generic"), "bool_": ("generic",),
             "int16": ("signedinteger", "integer", "number", "generic"), "uint8": ("unsignedinteger", "integer", "number", "generic")}

    def outer_bases(self, cls):
        """names of the library classes a class of the program derives from"""
        import ast
        out = set()
        for c in self.I.repo.mro(cls) if cls is not None else ():
            for b in c.node.bases:
                n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else "?"
                out |= {n} | set(self.NUMPY.get(n, ()))
        return out

    def isinst(self, v, t, st):
        from .interp import Num, Ref, Tup, ClsV, Ext, StrV, UnitV, FnV, Bound, UNDEF
        from .lib import StrCol
        I = self.I
        from .interp import Unk
        if isinstance(v, Unk) and v.why.startswith("attribute dtype"):
            return X.K(isinstance(t, Ext) and t.name.endswith("dtype"))
        if isinstance(v, Unk):
            return X.bvar("unk:type of %s" % v.why)
        if isinstance(t, ClsV):
            if isinstance(v, Ref):
                o = I.o(v)
                if o.cls is not None and not isinstance(o.cls, str):
                    return X.K(t.cls in I.repo.mro(o.cls))
                if o.kind == "reg":
                    return X.bvar("isinstance:%s:%s" % (o.path, t.cls.name))
            return X.FALSE
        nm = t.name.rsplit(".", 1)[-1] if isinstance(t, Ext) else None
        if nm is None:
            return X.bvar("isinstance:%r:%r" % (v, t))
        kinds = set()
        if isinstance(v, (str, StrV)):
            kinds = {"bytes", "Hashable"} if isinstance(v, StrV) and v.parts[0] == "bytes" else {"str", "Hashable", "Sequence", "string_types"}
            if isinstance(v, StrV) and len(v.parts) == 3 and v.parts[0] == "in" and isinstance(v.parts[2], int):
                kinds.add("str_")   # an element of a column of text
        elif isinstance(v, Tup):
            kinds = {"tuple", "Sequence", "Iterable"}
        elif isinstance(v, StrCol):
            kinds = {"Column", "ndarray"}
        elif isinstance(v, UnitV):
            kinds = {"UnitBase", "Unit", "CompositeUnit", "IrreducibleUnit"}
        elif isinstance(v, (FnV, Bound)):
            kinds = {"FunctionType", "Callable"}
        elif type(v).__name__ == "SliceV":
            kinds = {"slice"}
        else:
            n = None
            if isinstance(v, Ref):
                o = I.o(v)
                if o.kind == "list":
                    kinds = {"list", "Sequence", "Iterable", "MutableSequence"}
                elif o.kind == "dict":
                    kinds = {"dict", "OrderedDict", "Mapping", "MutableMapping"} if o.cls == "OrderedDict" else {"dict", "Mapping", "MutableMapping"}
                elif o.kind == "set":
                    kinds = {"set"}
                elif o.kind == "table":
                    kinds = {"Table", "QTable"} if (o.cls or "QTable") == "QTable" else {"Table"}
                elif o.kind == "inst":
                    return X.K(nm in self.outer_bases(o.cls))
                elif o.kind == "reg":
                    if "isa" in o.hint:
                        return X.K(nm in o.hint["isa"])
                    if o.cls is not None:
                        return X.FALSE
                    n = I.rd(st, (v.oid, "num"), None)
                    if n is None:
                        return X.bvar("isinstance:%s:%s" % (o.path, nm))
                else:
                    n = self.N(v, st)
            elif isinstance(v, Num):
                n = v
            if n is not None:
                arr = n.e.rows is not None or n.e.wl
                if n.isq is None and nm in ("Quantity", "SpecificTypeQuantity"):
                    return X.bvar("isq:%d" % n.e.id)
                if n.isq == "col":
                    kinds = {"Column", "ndarray", "MaskedColumn"}
                elif n.isq:
                    kinds = {"Quantity", "ndarray"}
                elif arr:
                    kinds = {"ndarray"}
                elif n.e.isb:
                    kinds = {"bool", "int", "Number"}
                elif n.e.op == "k" and isinstance(n.e.args[0], int):
                    kinds = {"int", "Number", "Integral", "Real"}
                elif n.size is not None:
                    kinds = {"int", "Number", "Integral"}
                else:
                    kinds = {"float", "Number", "float64", "floating", "number", "Real"}
        return X.K(nm in kinds)
