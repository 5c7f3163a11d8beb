"""Methods of built-in kinds of values."""
from . import expr as X
from .units import same_unit
from .libext import LibExt
from .libmeth import LibMeth


def recv_of(lib, ref):
    from .interp import BM
    return BM("__dict__", ref)


class LibCall(LibMeth, LibExt):
    def method(self, name, recv, args, kw, st, node):
        from .interp import Ref, Tup, StrV, Num
        if "." not in name:
            if name == "__dict__":
                return self.I.unk("call of __dict__", node)
            name = "list." + name
        kind, m = name.split(".", 1)
        f = getattr(self, "m_" + kind, None)
        if f is None:
            return self.I.unk("method " + name, node)
        return f(m, recv, args, kw, st, node)

    def arg(self, args, kw, i, name, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    # ------------------------------------------------------------ object
    def m_object(self, m, recv, args, kw, st, node):
        I = self.I
        if m in ("__init__", "__init_subclass__", "__enter__", "__exit__", "__del__"):
            return None
        if m == "__setattr__":
            I.setattr(recv, args[0], args[1], st, node)
            return None
        if m in ("__getattribute__", "__getattr__"):
            k = self.key(args[0])
            return I.getattr(recv, k, st, node) if isinstance(k, str) else I.unk("attribute name", node)
        return I.unk("object method " + m, node)

    def m_bm(self, m, recv, args, kw, st, node):
        if recv.name == "__dict__":
            return self.m_attrs(m, recv.recv, args, kw, st, node)
        return self.I.unk("bound method " + m, node)

    def m_attrs(self, m, ref, args, kw, st, node):
        """ref.__dict__.<m>"""
        from .interp import Diverge, Ref
        I = self.I
        if m == "update":
            for src in args:
                ents = self.dict_entries(src, st)
                if ents is None:
                    src = self.b_dict([src], {}, st, node)
                    ents = self.dict_entries(src, st) if isinstance(src, Ref) else None
                if ents is None:
                    I.unk("update of attributes", node)
                    continue
                for k, c in ents:
                    if isinstance(k, str):
                        self.under(c, st, lambda s, k=k: I.setattr(ref, k, self.getitem(src, k, s, node), s, node))
            for k, v in kw.items():
                I.setattr(ref, k, v, st, node)
            return None
        if m in ("keys", "items", "values"):
            o = I.o(ref)
            names = []
            if o.kind == "inst":
                names = sorted({l[2] for l in st.store if l[0] == ref.oid and l[1] == "attr"})
            elif "attrs" in o.hint:
                names = list(o.hint["attrs"])
                names += [l[2] for l in st.store if l[0] == ref.oid and l[1] == "attr" and l[2] not in names]
            elif m == "keys":
                return recv_of(self, ref)
            else:
                return I.unk("attributes of a region", node)
            items = []
            for n in names:
                h = I.simp(I.hasattr(ref, n, st), st)
                v = n if m == "keys" else I.getattr(ref, n, st.copy(), node)
                items.append((v if m != "items" else Tup2(n, v), h))
            return self.mklist(st, items, conds=True)
        if m == "get":
            return I.getattr(ref, self.key(args[0]), st, node)
        if m in ("pop", "__delitem__", "setdefault") and args and isinstance(self.key(args[0]), str):
            k = self.key(args[0])
            h = I.simp(I.hasattr(ref, k, st), st)
            got = [None]
            if m == "setdefault":
                self.under(X.NOT(h), st, lambda s: I.setattr(ref, k, args[1] if len(args) > 1 else None, s, node))
                return I.getattr(ref, k, st, node)
            if len(args) < 2:
                if h is not X.TRUE:
                    I.pend("KeyError", st.copy().assume(h, False) if h is not X.FALSE else st, node)
                    if h is X.FALSE:
                        raise Diverge()
                    st.assume(h, True)
                    h = X.TRUE

            def drop(s):
                got[0] = I.getattr(ref, k, s, node)
                I.delattr(ref, k, s, node)
            if h is not X.FALSE:
                self.under(h, st, drop)
            return I.mkphi(h, got[0], args[1] if len(args) > 1 else None)
        return I.unk("attributes." + m, node)

    # ------------------------------------------------------------ strings
    def m_str(self, m, v, args, kw, st, node):
        from .interp import StrV, Num, Ref, Tup, Phi, Unk
        I = self.I
        for i, a in enumerate(args):
            if isinstance(a, Phi) and m != "format" and m != "join":
                return I.split(a, st, lambda x, s: self.m_str(m, v, args[:i] + [x] + args[i + 1:], kw, s, node))
        if m == "format":
            return self.fmt(v, args, kw, st)
        if m == "join":
            its = self.iterate(args[0], st)
            if its is None or any(c is not X.TRUE for _, c in its):
                return StrV(("join?", repr(args[0])[:60]))
            parts = []
            for i, (x, c) in enumerate(its):
                if i:
                    parts.append(v)
                parts.append(self.tostr(x, st))
            return self.joinparts(parts)
        if isinstance(v, StrV) and v.parts[0] == "bytes":
            if m == "decode" and not any(self.key(a) is None for a in args):
                try:
                    return v.parts[1].decode(*[self.key(a) for a in args], **{k: self.key(a) for k, a in kw.items()})
                except Exception:
                    I.pend("UnicodeDecodeError", st, node)
                    from .interp import Diverge
                    raise Diverge()
        if isinstance(v, str):
            conc = []
            for a in args:
                k = self.key(a)
                if isinstance(a, Tup):
                    k = tuple(a.items)
                conc.append(k)
            if all(isinstance(a, (str, int, tuple)) or a is None for a in conc):
                try:
                    r = getattr(v, m)(*conc, **{k: self.key(a) for k, a in kw.items()})
                except Exception:
                    I.pend("ValueError", st, node)
                    from .interp import Diverge
                    raise Diverge()
                return self.lift(r, st)
        if m in ("startswith", "endswith", "isdigit"):
            return Num(X.bvar("str.%s:%r:%r" % (m, v, tuple(args))))
        if m in ("split", "rsplit", "splitlines"):
            if isinstance(v, StrV) and v.parts[0] == "join" and args and isinstance(args[0], str) and False:
                pass
            return I.new("reg", path="%s(%r,%r)" % (m, v, tuple(repr(a) for a in args)), hint={"str_open": True})
        if m in ("find", "rfind", "index", "count"):
            return Num(X.mk("atom", "str.%s:%r:%r" % (m, v, tuple(repr(a) for a in args))))
        if m.startswith("is"):
            return Num(X.bvar("str.%s:%r:%r" % (m, v, tuple(args))))
        if m in ("partition", "rpartition", "rindex", "format_map", "maketrans", "translate"):
            return I.unk("text." + m, node)
        return StrV((m, v) + tuple(repr(a) for a in args))

    def lift(self, r, st):
        from .interp import Num, Tup
        if isinstance(r, (bool, int, float)):
            return Num(X.K(r))
        if isinstance(r, bytes):
            from .interp import StrV
            return StrV(("bytes", r))
        if isinstance(r, list):
            return self.mklist(st, [self.lift(x, st) for x in r])
        if isinstance(r, tuple):
            return Tup([self.lift(x, st) for x in r])
        return r

    def fmt(self, v, args, kw, st):
        import re
        if not isinstance(v, str):
            from .interp import StrV
            return StrV(("format", v) + tuple(repr(a) for a in args))
        parts = []
        n = 0
        pos = 0
        for mt in re.finditer(r"\{\{|\}\}|\{([^{}!:.\[]*)([.\[][^{}!:]*)?(![rsa])?(:[^{}]*)?\}", v):
            parts.append(v[pos:mt.start()])
            pos = mt.end()
            if mt.group(0) in ("{{", "}}"):
                parts.append(mt.group(0)[0])
                continue
            f = mt.group(1)
            if f == "":
                a = args[n] if n < len(args) else None
                n += 1
            elif f.isdigit():
                a = args[int(f)] if int(f) < len(args) else None
            else:
                a = kw.get(f)
            spec = mt.group(4)
            s = self.tostr(a, st)
            if spec and spec not in (":s", ":"):
                from .interp import StrV
                s = StrV(("fmt", spec, s if not isinstance(s, StrV) else s.parts))
            parts.append(s)
        parts.append(v[pos:])
        return self.joinparts(parts)

    def strfmt(self, a, b, st):
        import re
        from .interp import Tup, StrV
        args = list(b.items) if isinstance(b, Tup) else [b]
        if not isinstance(a, str):
            return StrV(("%", repr(a), repr(b)[:60]))
        parts, pos, n = [], 0, 0
        for mt in re.finditer(r"%(%|[-+0-9.]*[a-zA-Z])", a):
            parts.append(a[pos:mt.start()])
            pos = mt.end()
            if mt.group(1) == "%":
                parts.append("%")
                continue
            x = args[n] if n < len(args) else None
            n += 1
            s = self.tostr(x, st)
            parts.append(s if mt.group(1) == "s" else StrV(("fmt", mt.group(1), s if isinstance(s, str) else s.parts)))
        parts.append(a[pos:])
        return self.joinparts(parts)

    # ------------------------------------------------------------ lists
    def lextend(self, x, val, st, node):
        I = self.I
        its = self.iterate(val, st, node)
        cur = I.rd(st, (x.oid, "items"), ())
        if its is None:
            its = [(I.unk("extension of a list", node), X.TRUE)]
        I.wr(st, (x.oid, "items"), tuple(cur) + tuple(its))
        return x

    def m_list(self, m, v, args, kw, st, node):
        from .interp import Ref, Tup, Num, Diverge, Unk
        I = self.I
        if isinstance(v, Tup):
            items = [(x, X.TRUE) for x in v.items]
            if m == "index":
                return self.lindex(items, args[0], st, node)
            if m == "count":
                return I.unk("tuple.count", node)
            I.pend("AttributeError", st, node)
            raise Diverge()
        items = I.rd(st, (v.oid, "items"), ())
        if m in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"):
            I.effect("mutate", v, "." + m, st, node)
        if m == "append":
            I.wr(st, (v.oid, "items"), items + ((args[0], X.TRUE),))
            return None
        if m == "extend":
            self.lextend(v, args[0], st, node)
            return None
        if m == "insert":
            k = self.key(args[0])
            if isinstance(k, int) and (all(c is X.TRUE for _, c in items) or k == 0):
                its = list(items)
                its.insert(k, (args[1], X.TRUE))
                I.wr(st, (v.oid, "items"), tuple(its))
            else:
                I.wr(st, (v.oid, "items"), items + ((I.unk("list.insert", node), X.TRUE),))
            return None
        if m == "pop":
            k = self.key(args[0]) if args else -1
            if not items:
                I.pend("IndexError", st, node)
                raise Diverge()
            if isinstance(k, int) and all(c is X.TRUE for _, c in items) and -len(items) <= k < len(items):
                its = list(items)
                x, _ = its.pop(k)
                I.wr(st, (v.oid, "items"), tuple(its))
                return x
            I.wr(st, (v.oid, "items"), tuple((I.unk("list.pop", node), c) for _, c in items))
            return I.unk("list.pop", node)
        if m == "remove":
            for i, (x, c) in enumerate(items):
                q = self.equal(x, args[0], st, node)
                if q is X.TRUE:
                    I.wr(st, (v.oid, "items"), items[:i] + items[i + 1:])
                    return None
                if q is not X.FALSE:
                    break
            I.wr(st, (v.oid, "items"), tuple((I.unk("list.remove", node), c) for _, c in items))
            return None
        if m == "reverse":
            I.wr(st, (v.oid, "items"), items[::-1])
            return None
        if m == "sort":
            if all(isinstance(x, str) for x, _ in items) and not kw:
                I.wr(st, (v.oid, "items"), tuple(sorted(items, key=lambda p: p[0])))
            else:
                I.wr(st, (v.oid, "items"), tuple((I.unk("list.sort", node), c) for _, c in items))
            return None
        if m == "clear":
            I.wr(st, (v.oid, "items"), ())
            return None
        if m == "copy":
            return self.mklist(st, items, conds=True)
        if m == "index":
            return self.lindex(items, args[0], st, node)
        return I.unk("list." + m, node)

    def lindex(self, items, x, st, node):
        from .interp import Num, Diverge
        if any(c is not X.TRUE for _, c in items):
            return self.I.unk("index in a conditional list", node)
        for i, (y, _) in enumerate(items):
            q = self.equal(y, x, st, node)
            if q is X.TRUE:
                return Num(X.K(i))
            if q is not X.FALSE:
                return self.I.unk("list.index", node)
        self.I.pend("ValueError", st, node)
        raise Diverge()

    # ------------------------------------------------------------ sets
    def settle(self, v, st, node):
        """the members of a collection -> when each is in, or None"""
        its = self.iterate(v, st, node)
        if its is None:
            return None
        d = {}
        for x, c in its:
            k = self.key(self.I.pin(x, st))
            if not isinstance(k, (str, int, float, bool, tuple, type(None))):
                return None
            d[k] = X.OR(d[k], c) if k in d else c
        return d

    def setop(self, op, a, b, st, node):
        I = self.I
        x, y = self.settle(a, st, node), self.settle(b, st, node)
        if x is None or y is None:
            return I.unk("set operation", node)
        f = {"Sub": lambda p, q: X.AND(p, X.NOT(q)), "BitAnd": X.AND, "BitOr": X.OR,
             "BitXor": lambda p, q: X.OR(X.AND(p, X.NOT(q)), X.AND(q, X.NOT(p)))}[op]
        r = [(k, I.simp(f(x.get(k, X.FALSE), y.get(k, X.FALSE)), st)) for k in list(x) + [k for k in y if k not in x]]
        return self.mklist(st, [(self.unkey(k), c) for k, c in r if c is not X.FALSE], conds=True, kind="set")

    def m_set(self, m, v, args, kw, st, node):
        I = self.I
        ents = I.rd(st, (v.oid, "keys"), ())
        if m == "add":
            k = self.key(args[0])
            if k not in dict(ents):
                I.wr(st, (v.oid, "keys"), ents + ((k, X.TRUE),))
            else:
                I.wr(st, (v.oid, "keys"), tuple((kk, X.TRUE if kk == k else c) for kk, c in ents))
            return None
        if m == "update":
            for a in args:
                for x, c in self.iterate(a, st, node) or []:
                    self.m_set("add", v, [x], {}, st, node)
            return None
        if m in ("discard", "remove"):
            k = self.key(args[0])
            I.wr(st, (v.oid, "keys"), tuple(e for e in ents if e[0] != k))
            return None
        if m in ("union", "intersection", "difference", "symmetric_difference"):
            r = v
            for a in args:
                r = self.setop({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[m], r, a, st, node)
            return r
        if m in ("issubset", "issuperset", "isdisjoint"):
            x, y = (self.settle(q, st, node) for q in (v, args[0]))
            if x is None or y is None:
                return I.unk("set." + m, node)
            if m == "issuperset":
                x, y = y, x
            r = X.TRUE
            for k, c in x.items():
                d = y.get(k, X.FALSE)
                r = X.AND(r, X.OR(X.NOT(c), d if m != "isdisjoint" else X.NOT(d)))
            from .interp import Num
            return Num(r, None, False)
        if m == "copy":
            return self.mklist(st, [(self.unkey(k), c) for k, c in ents], conds=True, kind="set")
        return I.unk("set." + m, node)


def Tup2(a, b):
    from .interp import Tup
    return Tup([a, b])
