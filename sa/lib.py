"""Model of the built-in, numpy, astropy and scipy operations the package uses."""
import math
from . import expr as X
from .expr import E
from . import units
from .units import parse_unit, unit_atom, same_unit
from .interp import (V, Num, Ref, Tup, Phi, UnitV, Ext, FnV, Bound, ClsV, ModV, SuperV, BM, Interp1, PartialV, SliceV, StrV, Unk,
                     UNDEF, DELETED, Diverge, MUTATORS, State)
from .libnum import LibNum
from .libcall import LibCall


class StrCol(V):
    """a column of concrete strings"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, StrCol) and o.items == self.items

    def __hash__(self):
        return hash(("strcol", self.items))

    def __repr__(self):
        return "StrCol%r" % (self.items,)


class RepV(V):
    """a list of one value repeated an unknown number of times"""
    __slots__ = ("item", "n")

    def __init__(self, item, n):
        self.item, self.n = item, n

    def __eq__(self, o):
        return isinstance(o, RepV) and (o.item, o.n) == (self.item, self.n)

    def __hash__(self):
        return hash(("rep", self.item, self.n))


class DateV(V):
    pass


NUMATTRS = {"value", "unit", "to", "si", "cgs", "decompose", "size", "shape", "ndim", "T", "max", "min", "sum", "mean", "copy", "astype", "any", "all",
            "item", "dtype", "flatten", "ravel", "std", "argmax", "argmin", "to_value", "tolist", "round", "cumsum", "clip", "squeeze", "fill", "prod", "real"}
STRMETH = {n for n in dir(str) if not n.startswith("_")} | {"decode"}
OPENSTR = {"lower", "upper", "strip", "replace", "split", "endswith", "startswith", "format", "join", "find", "encode", "decode", "title", "capitalize",
           "lstrip", "rstrip", "isdigit", "count", "rsplit", "splitlines", "rfind", "index"}
LISTMETH = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "index", "count", "copy", "clear"}
DICTMETH = {"keys", "values", "items", "get", "update", "pop", "copy", "setdefault", "clear", "popitem", "move_to_end", "fromkeys"}
TABMETH = {"keys", "values", "items", "copy", "itercols", "remove_columns", "remove_column", "rename_column", "add_column", "add_columns", "replace_column",
           "keep_columns", "as_array", "convert_unicode_to_bytestring", "write", "to_pandas", "sort", "reverse", "filled"}


class Lib(LibNum, LibCall):
    def __init__(self, interp):
        self.I = interp
        self.keynums = {}

    # ------------------------------------------------------------ helpers
    def N(self, v, st):
        return self.I.num(v, st)

    def narrowed(self, n, d):
        """a number turned to another type of real: those with fewer digits lose some"""
        nm = str(getattr(d, "name", None) or d).lower().split(".")[-1].lstrip("<>=|'").rstrip("'")
        if nm in ("float32", "f4", "single", "float16", "f2", "half", "f", "e"):
            return n.but(e=X.mul(X.fn("narrow", self.raw(n)), n.unit if n.isq is not False and n.unit is not None else X.ONE))
        return n

    def raw(self, n):
        """the plain number behind a value"""
        if n.isq is False:
            return n.e
        if n.isq is None and n.unit is None:
            return n.e
        u = n.unit if n.unit is not None else X.ONE
        return X.div(n.e, u)

    def mklist(self, st, items, conds=False, kind="list"):
        I = self.I
        its = tuple(items) if conds else tuple((x, X.TRUE) for x in items)
        if kind == "set":
            r = I.new("set")
            ents = []
            seen = {}
            for x, c in its:
                k = self.key(x)
                if k in seen:
                    ents[seen[k]] = (k, X.OR(ents[seen[k]][1], c))
                    continue
                seen[k] = len(ents)
                ents.append((k, c))
                I.wr(st, (r.oid, "item", k), x)
            I.wr(st, (r.oid, "keys"), tuple(ents))
        else:
            r = I.new(kind)
            I.wr(st, (r.oid, "items"), its)
        I.wr(st, (r.oid, "born"), True)
        return r

    def key(self, k):
        if isinstance(k, Num) and k.e.op == "k":
            v = k.e.args[0]
            return int(v) if isinstance(v, float) and v.is_integer() else v
        if isinstance(k, Num) and k.size is not None and k.size[0] == "row":
            return k.size[1]
        if isinstance(k, Num) and k.size is not None:
            return self.keynums.setdefault(k.e.id, Num(k.e))
        if isinstance(k, Num) and k.unit is None and not k.e.wl and k.e.rows is None:
            return self.keynums.setdefault(k.e.id, k)
        if isinstance(k, Tup):
            return Tup([self.key(x) for x in k.items])
        return k

    def unkey(self, k):
        if isinstance(k, bool) or isinstance(k, (int, float)):
            return Num(X.K(k))
        return k

    def mkdict(self, st, items, conds=None, cls="dict"):
        I = self.I
        r = I.new("dict", cls=cls)
        I.wr(st, (r.oid, "born"), True)
        I.wr(st, (r.oid, "keys"), ())
        for i, (k, v) in enumerate(items):
            self.dset(r, self.key(k), v, st, conds[i] if conds else X.TRUE)
        return r

    def dset(self, r, k, v, st, cond=X.TRUE):
        I = self.I
        ents = I.rd(st, (r.oid, "keys"), ())
        d = dict(ents)
        if k not in d and isinstance(k, (Tup, Num)):
            # a key that may be one that is there
            for q, c in ents:
                e = self.keyeq(k, q, st, None) if self.opaque_key(k) or self.opaque_key(q) else X.FALSE
                if e is not X.FALSE:
                    return self.dset_maybe(r, k, v, st, cond, ents)
        if k in d:
            if cond is not X.TRUE:
                old = I.rd(st, (r.oid, "item", k), None)
                v = I.mkphi(cond, v, old)
                ents = tuple((kk, X.OR(c, cond) if kk == k else c) for kk, c in ents)
            else:
                ents = tuple((kk, X.TRUE if kk == k else c) for kk, c in ents)
        else:
            ents = ents + ((k, cond),)
        I.wr(st, (r.oid, "item", k), v)
        I.wr(st, (r.oid, "keys"), ents)

    def dict_entries(self, v, st):
        """[(key, presence)] or None"""
        I = self.I
        if isinstance(v, Phi):
            c = I.simp(v.cond, st)
            if c.op == "k":
                return self.dict_entries(v.a if c.args[0] else v.b, st)
            a, b = self.dict_entries(v.a, st), self.dict_entries(v.b, st)
            if a is None or b is None:
                return None
            return list(I.merge_entries(c, tuple(a), tuple(b)))
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind in ("dict", "table"):
                return [(k, I.simp(c, st)) for k, c in I.rd(st, (v.oid, "keys"), ())]
            if o.kind == "inst":
                return [(l[2], X.TRUE) for l in st.store if l[0] == v.oid and l[1] == "attr"]
        return None

    def unit_of(self, v, st):
        if isinstance(v, UnitV):
            return v.e
        if isinstance(v, str):
            return parse_unit(v)
        if isinstance(v, StrV) and v.parts[0] == "unit" and len(v.parts) == 2:
            return v.parts[1]
        if isinstance(v, Ref) and self.I.o(v).kind == "reg" and self.I.rd(st, (v.oid, "num"), None) is None:
            return X.uof(self.I.o(v).path)
        n = self.N(v, st) if not isinstance(v, (str, StrV)) else None
        if n is not None and n.isq is not False:
            return n.e
        return None

    # ------------------------------------------------------------ attributes
    def extattr(self, dotted):
        r = self.I.repo.ext.get(dotted)
        if r is not None:
            return self.I.resolved(r, None, None, None)
        d = self.canon(dotted)
        last = d.rsplit(".", 1)[-1]
        if d.startswith("astropy.units."):
            a = unit_atom(d[len("astropy.units."):])
            if a is not None:
                return UnitV(a)
        if d.startswith("astropy.constants."):
            nm = d[len("astropy.constants."):]
            si = {"c": "m s-1", "h": "J s", "k_B": "J K-1", "G": "m3 kg-1 s-2", "sigma_sb": "W m-2 K-4", "R_sun": "m", "M_sun": "kg", "L_sun": "W", "R_earth": "m",
                  "R_jup": "m", "M_earth": "kg", "M_jup": "kg", "au": "m", "pc": "m"}.get(nm)
            if si is not None:
                return Num(X.atom("const." + nm), parse_unit(si), True)
        c = {"numpy.pi": math.pi, "numpy.e": math.e, "math.pi": math.pi, "math.e": math.e, "numpy.inf": math.inf, "numpy.nan": math.nan, "math.inf": math.inf, "math.nan": math.nan,
             "logging.DEBUG": 10.0, "logging.INFO": 20.0, "logging.WARNING": 30.0, "logging.WARN": 30.0, "logging.ERROR": 40.0, "logging.CRITICAL": 50.0, "logging.FATAL": 50.0, "logging.NOTSET": 0.0,
             "requests.codes.ok": 200, "http.HTTPStatus.OK": 200}.get(d)
        if c is not None:
            return Num(X.K(c))
        if d in ("numpy.newaxis",):
            return None
        if last.endswith(("_version", "__version__")) or d.endswith(".version.version"):
            from .interp import StrV
            return StrV(("version", d))
        return Ext(d)

    ALIASES = (("np.", "numpy."), ("scipy.constants.pi", "numpy.pi"))

    def canon(self, d):
        return d

    def sizes(self, n):
        e = n.e
        out = []
        if n.isidx and e.isb and e.rows is not None and not e.wl:
            # indices of the true elements
            t = X.ZERO
            for i in range(e.rows):
                t = X.add(t, X.ite(X.el(e, i), X.ONE, X.ZERO))
            return [Num(t)]
        if e.rows is not None:
            out.append(Num(X.K(e.rows), size=("row", e.rows)))
        if e.wl:
            out.append(self.wlsize(n))
        return out

    def wlsize(self, n):
        g = n.grid
        if isinstance(g, tuple) and len(g) == 4 and g[0] in ("logspace", "linspace") and isinstance(g[3], X.E):
            return Num(g[3], size=("wl", g))
        return Num(X.mk("atom", "n:%r" % (self.gridname(g),)), size=("wl", g))

    def gridname(self, g):
        return g if isinstance(g, str) else "g%d" % (hash(g) % 100000) if g is not None else "?"

    def valattr(self, v, name, st, node):
        I = self.I
        if isinstance(v, UnitV):
            if name in ("to", "to_string", "is_equivalent", "decompose", "in_units"):
                return BM("unit." + name, v)
            if name == "scale":
                return Num(X.mk("opq", "scale", v.e))
            return I.unk("unit attribute " + name, node)
        if isinstance(v, (str, StrV)):
            if name in STRMETH:
                return BM("str." + name, v)
            I.pend("AttributeError", st, node)
            raise Diverge()
        if isinstance(v, Num) or (isinstance(v, Ref)):
            n = self.N(v, st)
            if n is None:
                return I.unk("attribute %s of %r" % (name, v), node)
            if name in ("value", "data"):
                if n.isq is False:
                    if name == "data":
                        return v
                    I.pend("AttributeError", st, node)
                    raise Diverge()
                return I.fresh(st, n.but(e=self.raw(n), unit=None, isq=False))
            if name == "unit":
                if n.isq is False:
                    I.pend("AttributeError", st, node)
                    raise Diverge()
                if n.isq == "col" and n.unit is None:
                    return None
                return UnitV(n.unit if n.unit is not None else X.ONE)
            if name in ("si", "cgs"):
                return I.fresh(st, n.but(unit=X.mk("opq", "si", n.unit if n.unit is not None else X.ONE)) if False else n.but(unit=self.si(n.unit)))
            if name == "size":
                cm = self.concrete_mask(n, st) if n.isidx else None
                if cm is not None:
                    return Num(X.K(sum(cm)), size=("row", sum(cm)))
                s = self.sizes(n)
                if len(s) == 1:
                    return s[0]
                if not s:
                    return Num(X.ONE)
                return Num(X.mk("atom", "n:2d"))
            if name == "shape":
                return Tup(self.sizes(n))
            if name == "ndim":
                return Num(X.K(len(self.sizes(n))))
            if name == "T":
                return v
            if name == "real":
                return v
            if name == "data" and n.isq == "col":
                return I.fresh(st, n.but(e=self.raw(n), unit=None, isq=False))
            if name == "quantity" and n.isq == "col":
                return I.fresh(st, n.but(isq=True))
            if name == "dtype":
                return "bool" if n.e.isb else "float64" if n.e.op != "k" else I.unk("attribute dtype", node)
            if name in ("info", "name", "mask"):
                return I.unk("attribute " + name, node)
            if name == "data" and n.isq is not True:
                return v
            return BM("num." + name, v)
        if isinstance(v, Tup):
            return BM("list." + name, v)
        if isinstance(v, StrCol):
            if name == "dtype" and v.items and all(isinstance(x, Ref) for x in v.items):
                return "O"
            if name == "size":
                return Num(X.K(len(v.items)), size=("row", len(v.items)))
            if name == "shape":
                return Tup([Num(X.K(len(v.items)), size=("row", len(v.items)))])
            if name == "unit":
                return None
            return BM("strcol." + name, v)
        if isinstance(v, FnV) and name == "__name__":
            return v.name
        if isinstance(v, (FnV, Bound)) and name == "__class__":
            return I.unk("class of function", node)
        if isinstance(v, BM) and name == "__name__":
            return v.name
        if isinstance(v, BM):
            return BM("bm." + name, v)
        if isinstance(v, SliceV):
            return getattr(v, {"start": "lo", "stop": "hi", "step": "step"}.get(name, "lo"))
        return I.unk("attribute %s of %r" % (name, v), node)

    def si(self, u):
        """the SI unit with the same dimension (its content is not scaled)"""
        if u is None:
            return None
        from .units import si_unit
        return si_unit(u)

    def objattr(self, v, o, name, st, node):
        I = self.I
        if o.kind == "num":
            return self.valattr(v, name, st, node)
        if o.kind == "list":
            if name in LISTMETH:
                return BM("list." + name, v)
            n = self.N(v, st)
            I.pend("AttributeError", st, node)
            raise Diverge()
        if o.kind == "dict":
            if name in DICTMETH:
                return BM("dict." + name, v)
            I.pend("AttributeError", st, node)
            raise Diverge()
        if o.kind == "set":
            return BM("set." + name, v)
        if o.kind == "table":
            if name == "meta":
                m = I.rd(st, (v.oid, "attr", "meta"))
                if m is UNDEF:
                    m = self.mkdict(st, [])
                    I.wr(st, (v.oid, "attr", "meta"), m)
                return m
            if name in ("colnames", "columns"):
                return self.mklist(st, [(k, c) for k, c in I.rd(st, (v.oid, "keys"), ())], conds=True)
            return BM("tab." + name, v)
        return I.unk("attribute %s of a %s" % (name, o.kind), node)

    def regattr(self, v, o, name, st, node):
        I = self.I
        if name in ("__getattribute__", "__setattr__"):
            return BM("object." + name, v)
        if o.cls is not None:
            return UNDEF
        n = I.rd(st, (v.oid, "num"), None)
        if name in NUMATTRS and (n is not None or "open" not in o.hint):
            if n is not None or name != "copy":
                return self.valattr(v, name, st, node)
        if name in DICTMETH or name in LISTMETH or name in OPENSTR or name in TABMETH:
            return BM("reg." + name, v)
        if name == "meta":
            return UNDEF
        return UNDEF

    def setattr(self, x, o, name, val, st, node):
        I = self.I
        if o.kind == "table" and name == "meta":
            I.effect("setattr", x, ".meta", st, node)
            I.wr(st, (x.oid, "attr", "meta"), val)
            return
        if o.kind == "num" and name in ("value", "data"):
            n, w = self.N(x, st), self.N(val, st)
            if n is not None and w is not None:
                I.effect("inplace", x, "", st, node)
                I.wr(st, (x.oid, "num"), n.but(e=X.mul(w.e, n.unit or X.ONE)))
                return
        if o.kind == "num" and name == "unit":
            n = self.N(x, st)
            u = self.unit_of(val, st)
            if n is not None and u is not None and n.isq in ("col", False):
                I.wr(st, (x.oid, "num"), n.but(e=X.mul(self.raw(n), u), unit=u, isq="col"))
                return
        I.effect("setattr", x, "." + name, st, node)
        I.wr(st, (x.oid, "attr", name), val)

    # ------------------------------------------------------------ items
    def getitem(self, v, k, st, node=None):
        I = self.I
        if v is None or v is UNDEF:
            I.pend("TypeError", st, node)
            raise Diverge()
        if isinstance(v, Unk):
            return v
        if isinstance(v, Tup):
            return self.seqitem([(x, X.TRUE) for x in v.items], k, st, node, tup=True)
        if isinstance(v, str):
            kk = self.key(k)
            if isinstance(kk, int):
                try:
                    return v[kk]
                except IndexError:
                    I.pend("IndexError", st, node)
                    raise Diverge()
            if isinstance(k, SliceV):
                s = self.cslice(k, st)
                if s is not None:
                    return v[s]
            return StrV(("item", v, repr(k)))
        if isinstance(v, StrV):
            if isinstance(k, SliceV):
                return StrV(("slice", v, repr((self.ckey(k.lo), self.ckey(k.hi)))))
            return StrV(("item", v, repr(k)))
        if isinstance(v, StrCol):
            m = self.concrete_mask(k, st)
            if m is not None:
                return StrCol([x for x, b in zip(v.items, m) if b])
            kk = self.key(k)
            if isinstance(kk, int):
                return v.items[kk]
            if isinstance(k, SliceV):
                s = self.cslice(k, st)
                if s is not None:
                    return StrCol(v.items[s])
            return I.unk("string column item", node)
        if isinstance(v, Num):
            return self.numitem(v, k, st, node)
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind == "num":
                return self.numitem(self.N(v, st), k, st, node)
            if o.kind == "list":
                return self.seqitem(I.rd(st, (v.oid, "items"), ()), k, st, node)
            if o.kind == "table":
                return self.tabitem(v, o, k, st, node)
            if o.kind == "dict":
                kk = self.key(k)
                if isinstance(kk, (Unk,)):
                    return kk
                ents = dict(I.rd(st, (v.oid, "keys"), ()))
                c = I.simp(ents.get(kk, X.FALSE), st)
                if c is X.FALSE:
                    if self.opaque_key(kk) or any(self.opaque_key(q) for q in ents):
                        got = self.bytext(kk, ents, st, node)
                        if got is None:
                            return I.unk("dictionary key %r" % (kk,), node)
                        found = X.FALSE
                        for _, eq in got:
                            found = X.OR(found, eq)
                        if found is not X.TRUE:
                            I.pend("KeyError", st.copy().assume(found, False), node)
                            if found is X.FALSE:
                                raise Diverge()
                            st.assume(found, True)
                        r = UNDEF
                        for q, eq in reversed([x for x in got if x[1] is not X.FALSE]):
                            x = I.rd(st, (v.oid, "item", q), None) if not o.region else self.regchild(v, q, st)
                            r = x if r is UNDEF else I.mkphi(eq, x, r)
                        return r
                    I.pend("KeyError", st, node)
                    raise Diverge()
                if c is not X.TRUE:
                    s2 = st.copy().assume(c, False)
                    I.pend("KeyError", s2, node)
                    st.assume(c, True)
                return I.rd(st, (v.oid, "item", kk), None) if o.kind == "dict" and not o.region else self.regchild(v, kk, st)
            if o.kind == "reg":
                kk = self.key(k)
                n = I.rd(st, (v.oid, "num"), None)
                if n is not None and not isinstance(kk, str):
                    return self.numitem(n, k, st, node)
                if isinstance(kk, (str, int)) and not isinstance(kk, bool):
                    h = I.hint_fn("%s[%s]" % (o.path, kk))
                    if not self.stored(v, kk, st):
                        c = X.K(h["has"]) if h and h.get("has") is not None else X.has(o.path, kk)
                        c = I.simp(c, st)
                        if c is X.FALSE:
                            I.pend("KeyError", st, node)
                            raise Diverge()
                        if c is not X.TRUE and I.catchable("KeyError") and isinstance(kk, str):
                            s2 = st.copy().assume(c, False)
                            I.pend("KeyError", s2, node)
                            st.assume(c, True)
                    return I.child(v, "item", kk, st)
                if isinstance(k, (Num, SliceV)) or (isinstance(k, Ref) and I.o(k).kind in ("num", "list")):
                    m = self.N(v, st)
                    if m is not None:
                        return self.numitem(m, k, st, node)
                return I.child(v, "item", self.keyname(kk), st)
            if o.kind == "inst" and o.cls is not None:
                k2, m = I.repo.find_method(o.cls, "__getitem__")
                if m is not None:
                    return I.call_fn(FnV(m, k2.mod.name, k2), [v, k], {}, st, node)
        if isinstance(v, BM) and v.name == "__dict__":
            kk = self.key(k)
            return I.getattr(v.recv, kk, st, node) if isinstance(kk, str) else I.unk("__dict__ item", node)
        if isinstance(v, RepV):
            return v.item
        return I.unk("item of %r" % (v,), node)

    def dset_maybe(self, r, k, v, st, cond, ents):
        I = self.I
        there = X.FALSE
        for q, c in ents:
            e = self.keyeq(k, q, st, None)
            if e is None:
                I.unk("dictionary key %r" % (k,), None)
                e = X.bvar("unk:key")
            e = X.AND(X.AND(e, c), cond)
            there = X.OR(there, e)
            I.wr(st, (r.oid, "item", q), I.mkphi(e, v, I.rd(st, (r.oid, "item", q), None)))
        I.wr(st, (r.oid, "item", k), v)
        I.wr(st, (r.oid, "keys"), tuple(ents) + ((k, I.simp(X.AND(cond, X.NOT(there)), st)),))

    def keyname(self, kk):
        if isinstance(kk, Ref):
            return "<%s>" % (self.I.o(kk).path or "obj%d" % kk.oid)
        return "<%r>" % (kk,)

    def keyeq(self, a, b, st, node):
        """the condition under which two keys are the same; None when it is not known"""
        if isinstance(a, Tup) or isinstance(b, Tup):
            if not isinstance(a, Tup) or not isinstance(b, Tup):
                return None if isinstance(a, (Unk, Phi)) or isinstance(b, (Unk, Phi)) else X.FALSE
            if len(a.items) != len(b.items):
                return X.FALSE
            r = X.TRUE
            for x, y in zip(a.items, b.items):
                e = self.keyeq(x, y, st, node)
                if e is X.FALSE:
                    return e
                r = None if e is None or r is None else X.AND(r, e)
            return r
        if not self.opaque_key(a) and not self.opaque_key(b):
            return X.K(type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)
        if isinstance(a, (int, float, Num)) and isinstance(b, (int, float, Num)):
            x, y = (k if isinstance(k, Num) else Num(X.K(k)) for k in (a, b))
            if x.e.wl or y.e.wl or x.e.rows is not None or y.e.rows is not None or x.isq or y.isq:
                return None
            return X.TRUE if x.e is y.e else X.cmp("eq", x.e, y.e)
        if a is None or b is None:
            other = b if a is None else a
            if other is None:
                return X.TRUE
            if isinstance(other, (str, StrV, int, float, Num)):
                return X.FALSE
            r = self.is_(a, b, st)
            return getattr(r, "e", r)
        if isinstance(a, Ref) and isinstance(b, Ref) and self.I.o(a).kind == "reg" and self.I.o(b).kind == "reg" and self.I.o(a).cls is None and self.I.o(b).cls is None:
            x, y = sorted((self.I.o(a).path, self.I.o(b).path))
            return X.TRUE if x == y else self.I.simp(X.bvar("same:%s==%s" % (x, y)), st)
        text = [isinstance(k, (str, StrV)) or isinstance(k, Ref) and self.I.o(k).kind == "reg" for k in (a, b)]
        if all(text) and any(isinstance(k, str) for k in (a, b)):
            e = self.equal(a, b, st, node)
            e = e.e if isinstance(e, Num) else e
            return None if e is None or not e.isb else self.I.simp(e, st)
        return None

    def bytext(self, kk, ents, st, node):
        """[(key, the condition under which it is the one asked for)] when a text read from a file is looked up among literal names; None: not known"""
        r = []
        for q, c in ents.items():
            eq = self.keyeq(kk, q, st, node)
            if eq is None:
                return None
            if eq is not X.FALSE:
                r.append((q, self.I.simp(X.AND(c, eq), st)))
        return r

    def opaque_key(self, k):
        return isinstance(k, (StrV, Unk, Ref, Num, Phi)) or isinstance(k, Tup) and any(self.opaque_key(x) for x in k.items)

    def regchild(self, v, kk, st):
        x = self.I.rd(st, (v.oid, "item", kk))
        return None if x is UNDEF else x

    def stored(self, v, kk, st):
        """written by the analysed code on every path"""
        x = st.store.get((v.oid, "item", kk), UNDEF)
        if x is UNDEF:
            o = self.I.o(v)
            if o.base is not None and o.base[0] is not None:
                return self.stored(Ref(o.base[0]), kk, o.base[1])
            return False
        return not (isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF))

    def ckey(self, x):
        if x is None:
            return None
        return self.key(x)

    def cslice(self, k, st):
        out = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                out.append(None)
                continue
            x = self.key(x if not isinstance(x, Ref) else self.N(x, st))
            if not isinstance(x, int):
                return None
            out.append(x)
        return slice(*out)

    def concrete_mask(self, k, st):
        n = k if isinstance(k, Num) else None
        if isinstance(k, Ref):
            o = self.I.o(k)
            if o.kind == "num" or o.kind == "list":
                n = self.N(k, st)
        if n is None or not n.e.isb:
            return None
        e = n.e
        if e.op == "stack" and all(x.op == "k" for x in e.args):
            return [bool(x.args[0]) for x in e.args]
        v = self.settled(e)
        return [bool(x) for x in v] if v is not None and len(v) == e.rows else None

    def settled(self, e):
        """values along the rows of an expression without inputs; else None"""
        if e.wl or e.has_unk or not self.closed(e):
            return None
        try:
            return list(units._V[0].ev(e).ravel())
        except X.Undecided:
            return None

    CLOSED = {}

    def closed(self, e):
        r = self.CLOSED.get(e.id)
        if r is None:
            r = not e.wl and (e.op in self.PLAIN or e.op.startswith("fn:") and e.op not in ("fn:rand",)) and (e.op != "atom" or e.args[0].startswith("unit:"))
            r = r and all(self.closed(x) for x in e.args if isinstance(x, E))
            r = self.CLOSED[e.id] = bool(r and all(self.closed(x) for a in e.args if isinstance(a, tuple) for x in a if isinstance(x, E)))
        return r

    PLAIN = {"k", "atom", "add", "mul", "pow", "stack", "rowcat", "el", "full", "take", "red", "lt", "le", "eq", "and", "or", "not", "ite", "shift", "cut", "diff"}

    def seqitem(self, items, k, st, node, tup=False):
        I = self.I
        if isinstance(k, SliceV):
            s = self.cslice(k, st)
            if s is None or any(c is not X.TRUE for _, c in items):
                return I.unk("slice of a list", node)
            r = [x for x, _ in items[s]]
            return Tup(r) if tup else self.mklist(st, r)
        kk = self.key(k if not isinstance(k, Ref) else (self.N(k, st) or k))
        if isinstance(kk, int) and not isinstance(kk, bool):
            if any(c is not X.TRUE for _, c in items):
                seq = list(items)
                if kk < 0:
                    seq, kk = seq[::-1], -kk - 1
                if kk == 0:
                    # first present
                    r = None
                    acc = UNDEF
                    for x, c in reversed(seq):
                        acc = x if acc is UNDEF else I.mkphi(c, x, acc)
                    if acc is UNDEF:
                        I.pend("IndexError", st, node)
                        raise Diverge()
                    return acc
                acc, n = UNDEF, X.ZERO
                found = []
                for x, c in seq:
                    c = I.simp(c, st)
                    q = I.simp(X.AND(c, X.cmp("eq", n, X.K(kk))), st)
                    if q is not X.FALSE:
                        found.append((x, q))
                    n = X.add(n, X.ite(c, X.ONE, X.ZERO))
                for x, q in reversed(found):
                    acc = x if acc is UNDEF else I.mkphi(q, x, acc)
                if acc is UNDEF:
                    I.pend("IndexError", st, node)
                    raise Diverge()
                return acc
            if -len(items) <= kk < len(items):
                return items[kk][0]
            I.pend("IndexError", st, node)
            raise Diverge()
        m = self.concrete_mask(k, st)
        n = self.I.stacknum([x for x, _ in items], None, st) if items else None
        if n is not None:
            return self.numitem(n, k, st, node)
        i = self.N(k, st)
        if items and i is not None and not i.e.isb and i.e.rows is None and not i.e.wl and all(c is X.TRUE for _, c in items):
            # the index is taken to be in range, as argmin of a list of the same length is
            acc = items[-1][0]
            for j in range(len(items) - 2, -1, -1):
                acc = I.mkphi(X.cmp("eq", i.e, X.K(j)), items[j][0], acc)
            return acc
        if isinstance(k, str):
            I.pend("TypeError", st, node)
            raise Diverge()
        return I.unk("item of a list", node)

    def tabitem(self, v, o, k, st, node):
        I = self.I
        if isinstance(k, Tup) and all(isinstance(x, str) for x in k.items) or (isinstance(k, Ref) and I.o(k).kind == "list" and all(isinstance(x, str) for x, _ in I.rd(st, (k.oid, "items"), ()))):
            names = list(k.items) if isinstance(k, Tup) else [x for x, c in I.rd(st, (k.oid, "items"), ())]
            t = self.newtable(st)
            for c in names:
                self.setcol(t, c, self.tabitem(v, o, c, st, node), st)
            return t
        kk = self.key(k)
        if isinstance(kk, str):
            ents = dict(I.rd(st, (v.oid, "keys"), ()))
            c = I.simp(ents.get(kk, X.FALSE), st)
            if c is X.FALSE:
                if any(self.opaque_key(q) for q in ents):
                    return I.unk("column %s" % kk, node)
                I.pend("KeyError", st, node)
                raise Diverge()
            if c is not X.TRUE:
                I.pend("KeyError", st.copy().assume(c, False), node)
                st.assume(c, True)
            return I.rd(st, (v.oid, "item", kk))
        if self.opaque_key(k) and isinstance(k, StrV):
            ents = dict(I.rd(st, (v.oid, "keys"), ()))
            if k in ents:
                return I.rd(st, (v.oid, "item", k))
            return I.unk("column %r" % (k,), node)
        # row selection: a copy for masks, a view for slices
        t = self.newtable(st)
        for c, cond in I.rd(st, (v.oid, "keys"), ()):
            x = self.getitem(I.rd(st, (v.oid, "item", c)), k, st, node)
            I.wr(st, (t.oid, "item", c), x)
        I.wr(st, (t.oid, "keys"), I.rd(st, (v.oid, "keys"), ()))
        if isinstance(kk, int) and not isinstance(kk, bool):
            I.wr(st, (t.oid, "row"), True)
        return t

    def newtable(self, st, cls="QTable"):
        r = self.I.new("table", cls=cls)
        self.I.wr(st, (r.oid, "born"), True)
        self.I.wr(st, (r.oid, "keys"), ())
        self.I.wr(st, (r.oid, "attr", "meta"), self.mkdict(st, []))
        return r

    def nrows(self, t, st):
        if not self.I.rd(st, (t.oid, "keys"), ()) and not self.I.o(t).region:
            return 0
        for k, c in self.I.rd(st, (t.oid, "keys"), ()):
            x = self.I.rd(st, (t.oid, "item", k))
            if isinstance(x, StrCol):
                return len(x.items)
            n = self.N(x, st)
            if n is not None and n.e.rows is not None:
                return n.e.rows
        return None

    def colvalue(self, v, st, rows=None):
        """what a table stores for an assigned value"""
        I = self.I
        if isinstance(v, Phi):
            c = I.simp(v.cond, st)
            if c.op == "k":
                return self.colvalue(v.a if c.args[0] else v.b, st, rows)
            a, b = self.colvalue(v.a, st, rows), self.colvalue(v.b, st, rows)
            na, nb = self.N(a, st), self.N(b, st)
            if na is not None and nb is not None:
                return I.cell(st, I.itenum(c, na, nb))
            return I.mkphi(c, a, b)
        if isinstance(v, (StrCol, Unk)):
            return v
        if isinstance(v, str):
            return StrCol([v] * rows) if rows else v
        its = None
        if isinstance(v, Ref) and I.o(v).kind == "list":
            its = I.rd(st, (v.oid, "items"), ())
        elif isinstance(v, Tup):
            its = [(x, X.TRUE) for x in v.items]
        if its is not None and its and all(isinstance(x, str) for x, c in its):
            return StrCol([x for x, _ in its])
        n = self.N(v, st) if not isinstance(v, (RepV, StrV)) else None
        if n is None:
            return v
        if n.e.rows is None and not n.e.wl and rows:
            n = n.but(e=X.full(n.e, rows=rows))
        return I.cell(st, n.but(size=None, length=None))

    def setcol(self, t, k, v, st, node=None):
        I = self.I
        I.wr(st, (t.oid, "item", k), UNDEF)
        st.store.pop((t.oid, "item", k), None)
        x = self.colvalue(v, st, self.nrows(t, st))
        ents = I.rd(st, (t.oid, "keys"), ())
        if k in dict(ents):
            ents = tuple((kk, X.TRUE if kk == k else c) for kk, c in ents)
        else:
            ents = ents + ((k, X.TRUE),)
        I.wr(st, (t.oid, "item", k), x)
        I.wr(st, (t.oid, "keys"), ents)

    def setitem(self, v, k, val, st, node=None):
        I = self.I
        if isinstance(v, Unk) or v is None or v is UNDEF:
            return
        if isinstance(v, BM) and v.name == "__dict__":
            kk = self.key(k)
            if isinstance(kk, str):
                I.setattr(v.recv, kk, val, st, node)
            return
        if not isinstance(v, Ref):
            if isinstance(v, Num):
                I.unk("item assignment to a temporary", node)
            return
        o = I.o(v)
        kk = self.key(k)
        if o.kind == "dict":
            if isinstance(kk, Unk):
                I.unk("dictionary key", node)
                return
            I.effect("setitem", v, "[%s]" % (kk,), st, node, val)
            self.dset(v, kk, val, st)
            return
        if o.kind == "table":
            if isinstance(kk, (str, StrV)):
                I.effect("setitem", v, "[%s]" % (kk,), st, node, val)
                self.setcol(v, kk, val, st, node)
            else:
                I.effect("setitem", v, "[row]", st, node)
                for c, _ in I.rd(st, (v.oid, "keys"), ()):
                    I.wr(st, (v.oid, "item", c), I.unk("row assignment", node))
            return
        if o.kind == "list":
            its = list(I.rd(st, (v.oid, "items"), ()))
            I.effect("setitem", v, "[%s]" % (kk,), st, node)
            if isinstance(kk, int) and all(c is X.TRUE for _, c in its) and -len(its) <= kk < len(its):
                its[kk] = (val, X.TRUE)
                I.wr(st, (v.oid, "items"), tuple(its))
            else:
                I.unk("list item assignment", node)
                I.wr(st, (v.oid, "items"), tuple((I.unk("list", node), c) for _, c in its))
            return
        n = I.rd(st, (v.oid, "num"), None)
        if o.kind == "num" or n is not None or (o.kind == "reg" and not isinstance(kk, (str, StrV))):
            n = n if n is not None else self.N(v, st)
            I.effect("inplace", v, "", st, node)
            I.wr(st, (v.oid, "num"), self.numset(n, k, val, st, node))
            return
        if o.kind == "reg":
            key = kk if isinstance(kk, (str, int)) else self.keyname(kk)
            I.effect("setitem", v, "[%s]" % (key,), st, node, val)
            I.wr(st, (v.oid, "item", key), val)
            return
        if o.kind == "inst" and o.cls is not None:
            k2, m = I.repo.find_method(o.cls, "__setitem__")
            if m is not None:
                I.call_fn(FnV(m, k2.mod.name, k2), [v, k, val], {}, st, node)
                return
        I.unk("item assignment to %r" % (v,), node)

    def delitem(self, x, k, st, node):
        I = self.I
        if not isinstance(x, Ref):
            return
        o = I.o(x)
        kk = self.key(k)
        I.effect("delitem", x, "[%s]" % (kk,), st, node)
        if o.kind in ("dict", "table"):
            ents = I.rd(st, (x.oid, "keys"), ())
            if kk not in dict(ents):
                I.pend("KeyError", st, node)
                raise Diverge()
            I.wr(st, (x.oid, "keys"), tuple(e for e in ents if e[0] != kk))
        elif o.kind == "list":
            its = I.rd(st, (x.oid, "items"), ())
            if isinstance(kk, int):
                its = list(its)
                try:
                    del its[kk]
                except IndexError:
                    I.pend("IndexError", st, node)
                    raise Diverge()
                I.wr(st, (x.oid, "items"), tuple(its))

    # ------------------------------------------------------------ iteration
    def iterate(self, v, st, node=None, expect=None):
        I = self.I
        if isinstance(v, Phi):
            c = I.simp(v.cond, st)
            if c.op == "k":
                return self.iterate(v.a if c.args[0] else v.b, st, node, expect)
            a, b = self.iterate(v.a, st, node, expect), self.iterate(v.b, st, node, expect)
            if a is None or b is None:
                return None
            return list(I.merge_items(c, tuple(a), tuple(b)))
        if isinstance(v, Tup):
            return [(x, X.TRUE) for x in v.items]
        if isinstance(v, str):
            return [(x, X.TRUE) for x in v] if len(v) < 64 else None
        if isinstance(v, StrCol):
            return [(x, X.TRUE) for x in v.items]
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind == "list":
                return [(x, I.simp(c, st)) for x, c in I.rd(st, (v.oid, "items"), ())]
            if o.kind in ("dict", "set"):
                its = [(self.unkey(k), I.simp(c, st)) for k, c in I.rd(st, (v.oid, "keys"), ())]
                # nothing may rely on the order of a set: give another one than that of insertion
                return its[::-1] if o.kind == "set" else its
            if o.kind == "table":
                if I.rd(st, (v.oid, "row"), None):
                    return [(I.rd(st, (v.oid, "item", k)), I.simp(c, st)) for k, c in I.rd(st, (v.oid, "keys"), ())]
                n = self.nrows(v, st)
                return None if n is None else [(self.tabitem(v, o, Num(X.K(i)), st, node), X.TRUE) for i in range(n)]
            if o.kind in ("inst", "reg") and o.cls is not None:
                if not isinstance(o.cls, str) and I.repo.find_method(o.cls, "__iter__")[1] is not None:
                    r = I.call(I.getattr(v, "__iter__", st, node), [], {}, st, node)
                    return None if r == v else self.iterate(r, st, node)
                return None
            n = I.rd(st, (v.oid, "num"), None)
            if n is None:
                return None
            v = n
        if isinstance(v, Num):
            if v.e.rows is not None:
                return [(I.fresh(st, v.but(e=X.el(v.e, i), size=None)), X.TRUE) for i in range(v.e.rows)]
        return None

    # ------------------------------------------------------------ copies
    def copyval(self, src, snap, st, deep, region_init=False):
        I = self.I
        wr = (lambda loc, v: I._init.__setitem__(loc, v)) if region_init else (lambda loc, v: I.wr(st, loc, v))
        return self._copy(src, snap, wr, deep, {}, region_init)

    def _copy(self, v, snap, wr, deep, memo, ri):
        I = self.I
        if isinstance(v, Phi):
            return I.mkphi(v.cond, self._copy(v.a, snap, wr, deep, memo, ri), self._copy(v.b, snap, wr, deep, memo, ri))
        if isinstance(v, Tup):
            return Tup([self._copy(x, snap, wr, deep, memo, ri) if deep else x for x in v.items])
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = I.o(v)
        sub = (lambda x: self._copy(x, snap, wr, deep, memo, ri)) if deep else (lambda x: x)
        r = I.new(o.kind, cls=o.cls, path=o.path, hint=o.hint, region=False)
        memo[v.oid] = r
        wr((r.oid, "born"), True)
        if o.kind == "reg":
            I.objs[r.oid].base = (v.oid, snap.copy(), deep)
            n = I.rd(snap, (v.oid, "num"), None)
            if n is not None:
                wr((r.oid, "num"), n)
            return r
        if o.kind == "num":
            n = I.rd(snap, (v.oid, "num"), None)
            if n is not None:
                wr((r.oid, "num"), n)
            return r
        if o.kind == "list":
            wr((r.oid, "items"), tuple((sub(x), c) for x, c in I.rd(snap, (v.oid, "items"), ())))
            return r
        if o.kind in ("dict", "set", "table"):
            ents = I.rd(snap, (v.oid, "keys"), ())
            wr((r.oid, "keys"), ents)
            for k, c in ents:
                x = I.rd(snap, (v.oid, "item", k), UNDEF)
                if x is UNDEF:
                    continue
                if o.kind == "table":
                    x = self._copy(x, snap, wr, True, memo, ri)
                else:
                    x = sub(x)
                wr((r.oid, "item", k), x)
            if o.kind == "table":
                m = I.rd(snap, (v.oid, "attr", "meta"))
                wr((r.oid, "attr", "meta"), self._copy(m, snap, wr, True, memo, ri) if m is not UNDEF else UNDEF)
            return r
        if o.kind == "inst":
            for l in list(snap.store):
                if l[0] == v.oid and l[1] == "attr":
                    x = snap.store[l]
                    wr((r.oid, "attr", l[2]), sub(x) if x is not UNDEF else x)
            return r
        return r

    # ------------------------------------------------------------ strings
    def tostr(self, v, st):
        I = self.I
        if isinstance(v, str):
            return v
        if isinstance(v, Num) and v.e.op == "k" and v.isq is False:
            x = v.e.args[0]
            return str(int(x)) if isinstance(x, float) and x.is_integer() and abs(x) < 1e15 else str(x)
        if isinstance(v, Num) and v.isq is False and v.e.rows is None:
            c = X.const(v.e)
            if c is not None and abs(c[0] - round(c[0])) > 1e-9:
                return "%.12g" % c[0]
        if isinstance(v, StrV):
            return v
        if isinstance(v, Ref):
            o = I.o(v)
            if o.kind == "inst" and o.cls is not None and I.repo.find_method(o.cls, "__str__")[1] is not None:
                return I.call(I.getattr(v, "__str__", st, None), [], {}, st, None)
            return StrV(("str", o.path or "obj"))
        if isinstance(v, Phi):
            c = I.simp(v.cond, st)
            if c.op == "k":
                return self.tostr(v.a if c.args[0] else v.b, st)
        if v is None:
            return "None"
        if isinstance(v, UnitV):
            return StrV(("unit", v.e))
        return StrV(("str", repr(v)[:60]))

    def joinparts(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return StrV(("join",) + tuple(out))
