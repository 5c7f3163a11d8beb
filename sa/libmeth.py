"""Methods of dictionaries, tables, numbers, units and input regions."""
from . import expr as X


class LibMeth:
    # ------------------------------------------------------------ dictionaries
    def under(self, c, st, f):
        """f(state) where c holds"""
        I = self.I
        c = I.simp(c, st)
        if c is X.FALSE:
            return
        if c is X.TRUE:
            f(st)
            return
        sa, sb = st.copy().assume(c, True), st.copy().assume(c, False)
        f(sa)
        st.become(I.merge(sa, sb))

    def m_dict(self, m, v, args, kw, st, node):
        from .interp import Ref, Tup, Num, Diverge, Unk, UNDEF, Phi
        I = self.I
        if m in ("setdefault", "pop") and args and isinstance(args[0], Phi):
            return I.split(args[0], st, lambda k, s: self.m_dict(m, v, [k] + list(args[1:]), kw, s, node))
        ents = [(k, I.simp(c, st)) for k, c in I.rd(st, (v.oid, "keys"), ())]
        val = lambda k: I.rd(st, (v.oid, "item", k), None)
        if m == "keys":
            return self.mklist(st, [(self.unkey(k), c) for k, c in ents], conds=True)
        if m == "values":
            return self.mklist(st, [(val(k), c) for k, c in ents], conds=True)
        if m == "items":
            return self.mklist(st, [(Tup([self.unkey(k), val(k)]), c) for k, c in ents], conds=True)
        if m == "get":
            k = args[0]
            dflt = self.arg(args, kw, 1, "default")
            return self._dget(v, k, dflt, st, node)
        if m == "copy":
            return self.copyval(v, st, st, False)
        if m == "update":
            for src in args:
                es = self.dict_entries(src, st)
                if es is None:
                    its = self.iterate(src, st, node)
                    if its is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x, _ in its):
                        for x, c in its:
                            I.effect("setitem", v, "[%s]" % (x.items[0],), st, node)
                            self.dset(v, self.key(x.items[0]), x.items[1], st, c)
                        continue
                    I.effect("mutate", v, ".update", st, node)
                    I.unk("dict.update", node)
                    I.wr(st, (v.oid, "keys"), tuple(ents) + ((Unk("dict.update"), X.TRUE),))
                    continue
                for k, c in es:
                    if c is X.FALSE:
                        continue
                    I.effect("setitem", v, "[%s]" % (k,), st, node)
                    self.dset(v, k, I.rd(st, (src.oid, "item", k), None) if isinstance(src, Ref) and I.o(src).kind in ("dict", "table") else self.getitem(src, k, st.copy(), node), st, c)
            for k, x in kw.items():
                I.effect("setitem", v, "[%s]" % (k,), st, node)
                self.dset(v, k, x, st)
            return None
        if m == "setdefault":
            k = self.key(args[0])
            c = I.simp(dict(ents).get(k, X.FALSE), st)
            d = self.arg(args, kw, 1, "default")
            if c is X.FALSE:
                I.effect("setitem", v, "[%s]" % (k,), st, node)
                self.dset(v, k, d, st)
                return d
            if c is X.TRUE:
                return val(k)
            x = I.mkphi(c, val(k), d)
            self.dset(v, k, x, st)
            return x
        if m == "pop":
            k = self.key(args[0])
            c = I.simp(dict(ents).get(k, X.FALSE), st)
            I.effect("delitem", v, "[%s]" % (k,), st, node)
            if c is X.FALSE and len(args) < 2 and "default" not in kw:
                I.pend("KeyError", st, node)
                raise Diverge()
            x = val(k) if c is not X.FALSE else None
            I.wr(st, (v.oid, "keys"), tuple(e for e in ents if e[0] != k))
            if c is X.TRUE:
                return x
            if len(args) < 2:
                I.pend("KeyError", st.copy().assume(c, False), node)
                st.assume(c, True)
                return x
            return args[1] if c is X.FALSE else I.mkphi(c, x, args[1])
        if m == "clear":
            I.effect("mutate", v, ".clear", st, node)
            I.wr(st, (v.oid, "keys"), ())
            return None
        if m == "move_to_end":
            k = self.key(args[0])
            if k in dict(ents):
                last = self.arg(args, kw, 1, "last", Num(X.TRUE))
                rest = [e for e in ents if e[0] != k]
                e = (k, dict(ents)[k])
                I.wr(st, (v.oid, "keys"), tuple(rest + [e] if self.key(last) is not False else [e] + rest))
            return None
        return I.unk("dict." + m, node)

    def _dget(self, v, k, dflt, st, node):
        from .interp import Phi
        I = self.I
        if isinstance(k, Phi):
            return I.split(k, st, lambda kk, s: self._dget(v, kk, dflt, s, node))
        c = I.simp(self.contains(v, k, st, node), st)
        if c is X.FALSE:
            return dflt
        if c is X.TRUE:
            return I.getitem(v, k, st, node)
        s = st.copy().assume(c, True)
        s2 = st.copy().assume(c, False)
        x = I.getitem(v, k, s, node)
        st.become(I.merge(s, s2))
        return I.mkphi(c, x, dflt)

    # ------------------------------------------------------------ tables
    def m_tab(self, m, v, args, kw, st, node):
        from .interp import Ref, Tup, Num, Diverge, Unk
        I = self.I
        ents = [(k, I.simp(c, st)) for k, c in I.rd(st, (v.oid, "keys"), ())]
        val = lambda k: I.rd(st, (v.oid, "item", k), None)
        if m in ("keys",):
            return self.mklist(st, [(k, c) for k, c in ents], conds=True)
        if m in ("values", "itercols"):
            return self.mklist(st, [(val(k), c) for k, c in ents], conds=True)
        if m == "items":
            return self.mklist(st, [(Tup([k, val(k)]), c) for k, c in ents], conds=True)
        if m == "copy":
            return self.copyval(v, st, st, True)
        if m in ("remove_column", "remove_columns", "keep_columns"):
            names = self.arg(args, kw, 0, "name" if m == "remove_column" else "names")
            if isinstance(names, str):
                ns = [(names, X.TRUE)]
            else:
                ns = self.iterate(names, st, node)
            if ns is None or not all(isinstance(x, str) for x, _ in ns):
                I.effect("mutate", v, "." + m, st, node)
                I.wr(st, (v.oid, "keys"), ((Unk("columns"), X.TRUE),))
                return None
            nd = dict(ns)
            if m == "keep_columns":
                I.effect("mutate", v, "." + m, st, node)
                I.wr(st, (v.oid, "keys"), tuple(e for e in ents if e[0] in nd))
                return None
            out = []
            for n, c in ns:
                I.effect("delitem", v, "[%s]" % n, st, node)
                have = I.simp(dict(ents).get(n, X.FALSE), st)
                if have is X.FALSE and c is X.TRUE:
                    I.pend("KeyError", st, node)
                    raise Diverge()
            for k, c in ents:
                if k in nd:
                    if nd[k] is X.TRUE:
                        continue
                    out.append((k, X.AND(c, X.NOT(nd[k]))))
                else:
                    out.append((k, c))
            I.wr(st, (v.oid, "keys"), tuple(out))
            return None
        if m in ("add_column", "replace_column"):
            if m == "replace_column":
                name, col = self.arg(args, kw, 0, "name"), self.arg(args, kw, 1, "col")
            else:
                col, name = self.arg(args, kw, 0, "col"), self.arg(args, kw, 2, "name")
            if isinstance(name, str):
                I.effect("setitem", v, "[%s]" % name, st, node)
                self.setcol(v, name, col, st, node)
                idx = self.key(kw["index"]) if "index" in kw else None
                if isinstance(idx, int):
                    es = list(I.rd(st, (v.oid, "keys"), ()))
                    e = es.pop([k for k, _ in es].index(name))
                    es.insert(idx, e)
                    I.wr(st, (v.oid, "keys"), tuple(es))
                return None
        if m == "add_columns":
            cols, names = self.arg(args, kw, 0, "cols"), kw.get("names")
            ci, ni = self.iterate(cols, st, node), self.iterate(names, st, node) if names is not None else None
            if ci is not None and ni is not None and len(ci) == len(ni) and all(isinstance(n, str) for n, _ in ni):
                for (x, _), (n, _) in zip(ci, ni):
                    I.effect("setitem", v, "[%s]" % n, st, node)
                    self.setcol(v, n, x, st, node)
                return None
        if m in ("sort", "reverse"):
            # the rows in another order, in place
            from .interp import SliceV
            sub = v
            if m == "sort":
                names = self.arg(args, kw, 0, "keys")
                ns = [(names, X.TRUE)] if isinstance(names, str) else self.iterate(names, st, node) if names is not None else None
                col = self.N(val(ns[0][0]), st) if ns and len(ns) == 1 and ns[0][0] in dict(ents) else None
                back = kw.get("reverse", args[2] if len(args) > 2 else False)
                if col is None:
                    sub = None
                else:
                    idx = I.call(I.getattr(I.fresh(st, col), "argsort", st), [], {}, st)
                    sub = self.getitem(v, idx, st, node)
                    bn = self.N(back, st) if back is not False else None
                    if back is not False and (bn is None or bn.e is not X.FALSE):
                        m = "reverse" if bn is not None and bn.e is X.TRUE else m
                        sub = sub if m == "reverse" else None
            if m == "reverse" and isinstance(sub, Ref):
                sub = self.getitem(sub, SliceV(None, None, Num(X.K(-1))), st, node)
            if isinstance(sub, Ref):
                I.effect("mutate", v, "." + m, st, node)
                for k, c in ents:
                    I.wr(st, (v.oid, "item", k), I.rd(st, (sub.oid, "item", k), None))
                return None
        if m in ("rename_column", "rename_columns"):
            a, b = args[0], args[1]
            pa = [a] if isinstance(a, str) else [x for x, _ in self.iterate(a, st, node) or []]
            pb = [b] if isinstance(b, str) else [x for x, _ in self.iterate(b, st, node) or []]
            I.effect("mutate", v, "." + m, st, node)
            for x, y in zip(pa, pb):
                es = I.rd(st, (v.oid, "keys"), ())
                if x not in dict(es):
                    I.pend("KeyError", st, node)
                    raise Diverge()
                I.wr(st, (v.oid, "item", y), I.rd(st, (v.oid, "item", x), None))
                I.wr(st, (v.oid, "keys"), tuple((y if k == x else k, c) for k, c in es))
            return None
        if m in ("convert_unicode_to_bytestring", "convert_bytestring_to_unicode"):
            I.effect("mutate", v, "." + m, st, node)
            return None
        if m == "sort" or m == "reverse":
            I.effect("mutate", v, "." + m, st, node)
            for k, c in ents:
                I.wr(st, (v.oid, "item", k), I.unk("table." + m, node))
            return None
        return I.unk("table." + m, node)

    # ------------------------------------------------------------ units
    def convertible(self, u, t, st, node):
        """UnitConversionError when the two units are known to measure different things"""
        from .interp import Diverge
        from .units import dims
        a, b = dims(u) if u is not None else None, dims(t)
        if a is None or b is None:
            return
        if {k: x for k, x in a.items() if abs(x) > 1e-9} != {k: x for k, x in b.items() if abs(x) > 1e-9}:
            self.I.pend("UnitConversionError", st, node)
            raise Diverge()

    def m_unit(self, m, v, args, kw, st, node):
        from .interp import Num, UnitV, StrV
        from .units import same_unit, dims
        I = self.I
        if m == "to":
            tgt = self.unit_of(args[0], st)
            val = self.N(args[1], st) if len(args) > 1 else Num(X.ONE)
            if tgt is None or val is None:
                return I.unk("unit conversion", node)
            self.convertible(v.e, tgt, st, node)
            return Num(X.mul(X.div(v.e, tgt), val.e))
        if m in ("to_string",):
            return self.tostr(v, st) if not args and not kw else StrV(("unitstr", repr(v.e), repr(args), repr(kw)))
        if m == "is_equivalent":
            t = self.unit_of(args[0], st)
            if t is not None:
                a, b = dims(v.e), dims(t)
                if a is not None and b is not None:
                    return Num(X.K({k: x for k, x in a.items() if abs(x) > 1e-9} == {k: x for k, x in b.items() if abs(x) > 1e-9}))
            return Num(X.bvar("equivalent:%r:%r" % (v.e, args)))
        if m == "decompose":
            return v
        if m == "in_units":
            return self.m_unit("to", v, args, kw, st, node)
        return I.unk("unit." + m, node)

    def m_strcol(self, m, v, args, kw, st, node):
        from .lib import StrCol
        if m == "astype":
            from .interp import Num, Diverge
            nm = str(getattr(args[0], "name", args[0])) if args else ""
            if "float" in nm and all(isinstance(x, str) for x in v.items):
                try:
                    xs = [float(x) for x in v.items]
                except ValueError:
                    self.I.pend("ValueError", st, node)
                    raise Diverge()
                return self.I.cell(st, Num(X.stack([X.K(x) for x in xs])))
        if m in ("copy", "astype", "filled", "flatten"):
            return v
        if m in ("tolist",):
            return self.mklist(st, list(v.items))
        return self.I.unk("string column." + m, node)

    # ------------------------------------------------------------ numbers
    def m_num(self, m, recv, args, kw, st, node):
        from .interp import Num, UnitV, Ref, Tup, Diverge, Phi
        I = self.I
        I.risky += 1
        for i, a in enumerate(args):
            if isinstance(a, Phi) and self.N(a, st) is None:
                return I.split(a, st, lambda x, s: self.m_num(m, recv, args[:i] + [x] + args[i + 1:], kw, s, node))
        n = self.N(recv, st)
        if n is None:
            return I.unk("method %s of %r" % (m, recv), node)
        if m == "to" or m == "to_value":
            if n.isq is False:
                I.pend("AttributeError", st, node)
                raise Diverge()
            if m == "to_value" and not args and "unit" not in kw:
                return I.fresh(st, n.but(e=self.raw(n), unit=None, isq=False))
            t = self.unit_of(self.arg(args, kw, 0, "unit"), st)
            if t is None:
                return I.unk("conversion target", node)
            if not (len(args) > 1 or "equivalencies" in kw):
                self.convertible(n.unit, t, st, node)
            if m == "to_value":
                return I.fresh(st, n.but(e=X.div(n.e, t), unit=None, isq=False))
            if len(args) > 1 or "equivalencies" in kw:
                return I.fresh(st, n.but(e=X.opq("convert", n.e, t), unit=t))
            return I.fresh(st, n.but(unit=t, isq=True if n.isq != "col" else True))
        if m == "decompose":
            return I.fresh(st, n.but(unit=self.si(n.unit)))
        if m in ("max", "min", "sum", "mean", "std", "any", "all", "prod", "ptp"):
            ax = self.arg(args, kw, 0, "axis")
            return self.reduce(m, recv, self.key(ax) if ax is not None else None, st, node)
        if m in ("argmax", "argmin"):
            return I.fresh(st, self.argext(m, n))
        if m in ("argmax", "argmin", "argsort", "cumsum"):
            return I.fresh(st, self.opaque_arr(m, n))
        if m in ("copy", "flatten", "ravel", "squeeze", "filled", "view", "reshape"):
            if m == "reshape":
                return I.unk("reshape", node)
            return I.cell(st, n) if n.isq is not False or n.e.wl or n.e.rows is not None else n
        if m == "astype":
            t = args[0]
            nm = getattr(t, "name", t)
            if isinstance(nm, str) and "int" in nm:
                return I.fresh(st, n.but(e=X.mul(X.fn("int", self.raw(n)), n.unit if n.isq is not False and n.unit is not None else X.ONE)))
            return I.cell(st, self.narrowed(n, t))
        if m in ("item", "tolist"):
            return n if m == "item" else recv
        if m == "round":
            return I.fresh(st, n.but(e=X.mul(X.fn("round", self.raw(n)), self.uu(n))))
        if m == "clip":
            return I.fresh(st, self.clip(n, args, kw, st))
        if m == "fill":
            w = self.N(args[0], st)
            if isinstance(recv, Ref) and w is not None:
                I.effect("inplace", recv, "", st, node)
                I.wr(st, (recv.oid, "num"), n.but(e=X.full(w.e, n.e.rows, n.e.wl)))
                return None
        if m in ("sort", "resize", "put", "itemset", "setflags", "partition") and isinstance(recv, Ref):
            I.effect("inplace", recv, "", st, node)
            if m == "sort" and not args and not kw and n.e.rows is not None and not n.e.wl:
                I.wr(st, (recv.oid, "num"), n.but(e=X.gather(n.e, X.order(n.e))))
                return None
            I.wr(st, (recv.oid, "num"), n.but(e=X.unk("in-place %s" % m)))
            return None
        if m in ("startswith", "endswith", "lower", "upper", "strip", "split", "replace"):
            I.pend("AttributeError", st, node)
            raise Diverge()
        if m == "is_equivalent":
            return self.m_unit(m, UnitV(n.unit or X.ONE), args, kw, st, node)
        if m == "to_string":
            return self.tostr(recv, st)
        if m in ("append", "extend", "keys", "items", "values", "get", "update"):
            I.pend("AttributeError", st, node)
            raise Diverge()
        return I.unk("method %s of a number" % m, node)

    def opaque_arr(self, m, n):
        from .interp import Num
        e = n.e
        if m == "argsort" and e.rows is not None and not e.wl:
            return Num(X.order(e), None, False, n.grid)
        if m in ("argsort", "cumsum"):
            return Num(X.mk("opq", m, e, rows=e.rows, wl=e.wl), n.unit if m == "cumsum" else None, n.isq if m == "cumsum" else False, n.grid)
        return Num(X.mk("opq", m, X.red("fing", e, "wl") if e.wl and e.rows is None else X.red("fing", e, "all") if e.wl or e.rows else e))

    def clip(self, n, args, kw, st):
        lo = self.arg(args, kw, 0, "a_min", kw.get("min"))
        hi = self.arg(args, kw, 1, "a_max", kw.get("max"))
        e = n.e
        u = self.uu(n)
        for b, lower in ((lo, True), (hi, False)):
            if b is None:
                continue
            w = self.N(b, st)
            be = w.e if w.isq is not False else X.mul(w.e, u)
            e = X.ite(X.cmp("lt", e, be), be, e) if lower else X.ite(X.cmp("lt", be, e), be, e)
        return n.but(e=e)

    # ------------------------------------------------------------ input regions
    def m_reg(self, m, v, args, kw, st, node):
        from .interp import Num, UnitV, Ref, Tup, Diverge, Phi, StrV, MUTATORS, UNDEF
        I = self.I
        o = I.o(v)
        p = o.path or "obj"
        if m in MUTATORS and m not in ("sort",):
            if m == "update":
                for src in args:
                    es = self.dict_entries(src, st)
                    if es is None:
                        I.effect("mutate", v, ".update", st, node)
                        continue
                    for k, c in es:
                        self.under(c, st, lambda s, k=k: self.setitem(v, self.unkey(k), self.getitem(src, k, s, node), s, node))
                for k, x in kw.items():
                    self.setitem(v, k, x, st, node)
                return None
            if m == "setdefault":
                k = self.key(args[0])
                d = self.arg(args, kw, 1, "default")
                c = I.simp(self.contains(v, k, st, node), st)
                if c is X.TRUE:
                    return I.child(v, "item", k, st)
                x = I.mkphi(c, I.child(v, "item", k, st), d) if c is not X.FALSE else d
                self.setitem(v, args[0], x, st, node)
                return x
            if m == "pop" and args and isinstance(self.key(args[0]), str):
                k = self.key(args[0])
                x = self._dget(v, args[0], args[1] if len(args) > 1 else None, st, node)
                I.effect("delitem", v, "[%s]" % k, st, node)
                return x
            I.effect("mutate", v, "." + m, st, node)
            return I.unk("%s.%s()" % (p, m), node) if m in ("pop", "popitem") else None
        if m == "get":
            return self._dget(v, args[0], self.arg(args, kw, 1, "default"), st, node)
        if m == "copy":
            return self.copyval(v, st, st, False)
        if m in ("keys", "items", "values"):
            return I.new("reg", path="%s.%s()" % (p, m), hint={"view": (v.oid, m)})
        if m in ("startswith", "endswith", "isdigit"):
            return Num(X.bvar("%s.%s(%s)" % (p, m, ",".join(repr(a) for a in args))))
        if m in ("lower", "upper", "strip", "replace", "title", "lstrip", "rstrip", "capitalize", "format", "decode", "encode"):
            return I.new("reg", path="%s.%s(%s)" % (p, m, ",".join(repr(a) for a in args)))
        if m in ("split", "rsplit", "splitlines"):
            return I.new("reg", path="%s.%s(%s)" % (p, m, ",".join(repr(a) for a in args)), hint={"str_open": True})
        if m in ("find", "rfind", "count", "index"):
            return Num(X.atom("%s.%s(%s)" % (p, m, ",".join(repr(a) for a in args))))
        if m == "join":
            return StrV(("join?", p, repr(args)[:60]))
        if m in ("write", "flush", "close"):
            return None
        if m == "field" and len(args) == 1:
            return self.getitem(v, args[0], st, node)
        return I.unk("%s.%s" % (p, m), node)
