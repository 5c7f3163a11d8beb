"""Flow-sensitive interprocedural abstract interpreter.

Builds a gated value graph (sa.expr) for what a function of the repository
computes, and a log of the effects (writes to objects reachable from the
function's inputs).  Branches on unknown conditions are both analysed and their
states merged with gates at the join; no path is enumerated and nothing of the
repository is executed.  Collections of unknown size are represented by a small
concrete number of generic members, declared by the hints of each check.
What the analysis cannot represent becomes Unk, never a guess.
"""
import ast
import builtins

from . import expr as X
from .expr import E
from .repo import Broken


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class Num(V):
    """numeric or boolean abstract value.  e is the full content (number times unit)."""
    __slots__ = ("e", "unit", "isq", "grid", "length", "size", "isidx")

    def __init__(self, e, unit=None, isq=False, grid=None, length=None, size=None, isidx=False):
        self.e, self.unit, self.isq, self.grid, self.length, self.size, self.isidx = e, unit, isq, grid, length, size, isidx

    def key(self):
        return (self.e, self.unit, self.isq, self.grid, self.length, self.size, self.isidx)

    def __eq__(self, o):
        return isinstance(o, Num) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Num(%r%s)" % (self.e, "" if self.isq is False else " [%s]" % (X.show(self.unit) if self.unit is not None else "?"))

    def but(self, **k):
        d = dict(e=self.e, unit=self.unit, isq=self.isq, grid=self.grid, length=self.length, size=self.size, isidx=self.isidx)
        d.update(k)
        return Num(**d)


class Ref(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "Ref(%d)" % self.oid


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Phi(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (o.cond, o.a, o.b) == (self.cond, self.a, self.b)

    def __hash__(self):
        return hash(("phi", self.cond, self.a, self.b))

    def __repr__(self):
        return "Phi(%r,%r,%r)" % (self.cond, self.a, self.b)


class UnitV(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, UnitV) and o.e is self.e

    def __hash__(self):
        return hash(("unit", self.e))


class Ext(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class FnV(V):
    def __init__(self, node, mod, cls=None, frame=None, name=None, defaults=None):
        self.node, self.mod, self.cls, self.frame, self.name = node, mod, cls, frame, name or getattr(node, "name", "<lambda>")
        self.defaults = defaults

    def __repr__(self):
        return "Fn(%s)" % self.name


class Bound(V):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn.node is self.fn.node and o.self_ == self.self_

    def __hash__(self):
        return hash(("bound", id(self.fn.node), self.self_))

    def __repr__(self):
        return "Bound(%s)" % self.fn.name


class ClsV(V):
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.cls is self.cls

    def __hash__(self):
        return hash(("cls", id(self.cls)))

    def __repr__(self):
        return "Cls(%s)" % self.cls.name


class ModV(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("modv", self.name))


class SuperV(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class BM(V):
    """method of a built-in kind of object"""

    def __init__(self, name, recv):
        self.name, self.recv = name, recv

    def __eq__(self, o):
        return isinstance(o, BM) and o.name == self.name and o.recv == self.recv

    def __hash__(self):
        return hash(("bm", self.name, self.recv))

    def __repr__(self):
        return "BM(%s of %r)" % (self.name, self.recv)


class Interp1(V):
    def __init__(self, x, y, kind, fill, axis=None):
        self.x, self.y, self.kind, self.fill = x, y, kind, fill


class PartialV(V):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class SliceV(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StrV(V):
    """a string with unknown parts"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, StrV) and o.parts == self.parts

    def __hash__(self):
        return hash(("strv", self.parts))

    def __repr__(self):
        return "StrV%r" % (self.parts,)


class Unk(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Unk)

    def __hash__(self):
        return hash("unk")

    def __repr__(self):
        return "Unk(%s)" % self.why


# what is not analysed and may change objects in ways that are not recorded: a difference found afterwards decides nothing
LOSSY = ("statement ", "match statement", "call of ", "recursion in ", "too many arguments", "missing argument", "keyword unpack", "star @", "update of attributes", "setattr",
         "attributes.", "map @", "filter @", "reduce @", "await", "numpy.copyto", "numpy.put", "numpy.place", "numpy.fill_diagonal", "in-place call")
PURE = ("call of pathlib.", "call of numpy.", "call of scipy.", "call of math.", "call of astropy.", "call of open(", "call of re.", "call of itertools.", "call of functools.", "call of string.", "call of time.", "call of datetime.")
LOOKUP_ERRORS = {"KeyError", "IndexError", "AttributeError", "LookupError"}


class Missing(Exception):
    """an internal helper is not there (any more)"""


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Diverge(Exception):
    """no normal continuation from here"""


class Obj:
    __slots__ = ("oid", "kind", "cls", "path", "site", "base", "hint", "region")

    def __init__(self, oid, kind, cls=None, path=None, site=None, hint=None, region=False):
        self.oid, self.kind, self.cls, self.path, self.site, self.hint = oid, kind, cls, path, site, hint or {}
        self.base = None      # for copies of regions: (oid, snapshot state, deep)
        self.region = region  # reachable from the analysed entry's inputs


class State:
    __slots__ = ("store", "guard", "facts")

    def __init__(self, store=None, guard=(), facts=None):
        self.store = store if store is not None else {}
        self.guard = guard
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.store), self.guard, dict(self.facts))

    def view(self, cond, val):
        """the same store, to be read only, where cond is known"""
        return State(self.store, self.guard, dict(self.facts)).assume(cond, val)

    def become(self, o):
        self.store, self.guard, self.facts = o.store, o.guard, o.facts

    def assume(self, cond, val):
        if cond.op == "not":
            return self.assume(cond.args[0], not val)
        if cond.op == "k":
            return self
        if self.facts.get(cond) == val:
            return self
        self.guard = self.guard + ((cond, val),)
        self._learn(cond, val)
        return self

    def _learn(self, cond, val):
        self.facts[cond] = val
        if cond.op == "and" and val:
            for a in cond.args:
                self._learn(a, True)
        elif cond.op == "or" and not val:
            for a in cond.args:
                self._learn(a, False)
        elif cond.op == "not":
            self._learn(cond.args[0], not val)


class Frame:
    _n = 0

    def __init__(self, mod, cls=None, parent=None, fn=None):
        Frame._n += 1
        self.id = Frame._n
        self.mod, self.cls, self.parent, self.fn = mod, cls, parent, fn
        self.imports = {}
        self.globals = set()
        self.nonlocals = set()
        self.self_ = None
        self.locals = set()
        self.yields = None


def conj(lits):
    r = X.TRUE
    for c, v in lits:
        r = X.AND(r, c if v else X.NOT(c))
    return r


MUTATORS = {
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse",
    "fill", "resize", "itemset", "put", "remove_column", "remove_columns", "rename_column", "rename_columns", "add_column",
    "add_columns", "add_row", "remove_row", "remove_rows", "replace_column", "keep_columns", "__setitem__", "__delitem__", "move_to_end", "add", "discard",
    "convert_unicode_to_bytestring", "insert_row", "__setattr__", "sort_values", "drop", "partition", "setflags", "setfield", "byteswap",
}


class Interp:
    def __init__(self, repo, hint=None, budget=400000):
        self.repo = repo
        self.hint_fn = hint or (lambda p: None)
        self.objs = []
        self.children = {}
        self.effects = []       # (kind, path, site, guard, detail)
        self.tabsets = {}       # (oid, col) -> [site]
        self.calls = []         # (callee name, site, args, kwargs, guard)
        self.raises = []
        self.unks = []
        self.res = None
        self.excs = []
        self.try_stack = []
        self.call_stack = []
        self.budget = budget
        self.modstore = {}
        self.analysed = set()
        self.iter_level = []
        self.watch = None
        self.stubs = {}
        from . import lib
        self.lib = lib.Lib(self)

    # -------------------------------------------------------------- objects
    def new(self, kind, cls=None, path=None, site=None, hint=None, region=False):
        o = Obj(len(self.objs), kind, cls, path, site, hint, region)
        self.objs.append(o)
        return Ref(o.oid)

    def o(self, ref):
        return self.objs[ref.oid]

    def repo_fn(self, mod, name):
        """a helper function of the package; Missing when a refactoring removed it"""
        r = self.repo.lookup(mod, name) if mod in self.repo.modules else None
        if r is None or r[0] != "def":
            raise Missing("%s.%s" % (mod, name))
        return FnV(r[2], r[1].name)

    def run_module(self, name, st):
        """the statements of a module, as its first import executes them (definitions and imports are resolved by name)"""
        m = self.repo.modules.get(name)
        if m is None:
            raise Missing(name)
        fr = Frame(name)
        body = [s for s in m.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
        fr.globals = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.call_stack.append(("<module>", name))
        try:
            outs = [o for o in self.exec_block(body, st, fr) if o[0] == "n"]
        finally:
            self.call_stack.pop()
        if not outs:
            raise Diverge()
        if outs[0][1] is not st:
            st.__dict__.update(outs[0][1].__dict__)

    def site(self, node=None):
        fr = self.call_stack[-1] if self.call_stack else None
        mod = fr[1] if fr else None
        fn = fr[0] if fr else "?"
        path = self.repo.rel(self.repo.modules[mod].path) if mod in self.repo.modules else "?"
        return "%s:%s (%s)" % (path, getattr(node, "lineno", self.cur_line), fn)

    cur_line = 0
    opaque = 0
    risky = 0     # operations of libraries which may fail for reasons that are not modelled

    def unk(self, why, node=None):
        why = "%s @ %s" % (why, self.site(node))
        self.opaque += 1
        if len(self.unks) < 2000:
            self.unks.append(why)
        if self.res is not None and why.startswith(LOSSY) and not why.startswith(PURE):
            self.res.lost = "not followed: " + why
        return Unk(why)

    def region(self, path):
        """an input of the analysed entry"""
        return self.materialise(path, self.hint_fn(path) or {})

    def materialise(self, path, h, region=True):
        if "value" in h:
            return h["value"](self) if callable(h["value"]) else h["value"]
        if "str" in h:
            return h["str"]
        if "num" in h:
            n = h["num"]
            r = self.new("num", path=path, hint=h, region=region)
            self.init_store[(r.oid, "num")] = n
            return r
        if "table" in h:
            r = self.new("table", cls=h.get("tcls", "QTable"), path=path, hint=h, region=region)
            ents = []
            for col in h["table"]:
                cp = "%s[%s]" % (path, col)
                ch = self.hint_fn(cp) or {}
                v = self.materialise(cp, ch, region)
                self.init_store[(r.oid, "item", col)] = v
                ents.append((col, X.TRUE))
            self.init_store[(r.oid, "keys")] = tuple(ents)
            mp = path + ".meta"
            self.init_store[(r.oid, "attr", "meta")] = self.materialise(mp, self.hint_fn(mp) or {}, region)
            return r
        if "list" in h:
            r = self.new("list", path=path, hint=h, region=region)
            its = []
            for i in range(h["list"]) if isinstance(h["list"], int) else range(len(h["list"])):
                if isinstance(h["list"], int):
                    ip = "%s[%d]" % (path, i)
                    its.append((self.materialise(ip, self.hint_fn(ip) or {}, region), X.TRUE))
                else:
                    its.append((h["list"][i], X.TRUE))
            self.init_store[(r.oid, "items")] = tuple(its)
            return r
        if "keys" in h:
            r = self.new("dict", cls=h.get("dcls", "dict"), path=path, hint=h, region=region)
            ents = []
            for k in h["keys"]:
                cond = X.TRUE
                if isinstance(k, tuple):
                    k, cond = k[0], X.has(path, k[0])
                kp = "%s[%s]" % (path, k)
                self.init_store[(r.oid, "item", k)] = self.materialise(kp, self.hint_fn(kp) or {}, region)
                ents.append((k, cond))
            self.init_store[(r.oid, "keys")] = tuple(ents)
            return r
        cls = h.get("cls")
        r = self.new("reg", cls=self.repo.find_class(cls) if isinstance(cls, str) else cls, path=path, hint=h, region=region)
        return r

    # initial content of region objects is state independent
    @property
    def init_store(self):
        return self._init

    _init = None

    def rd(self, st, loc, default=UNDEF):
        v = st.store.get(loc, UNDEF)
        if v is UNDEF:
            v = self._init.get(loc, UNDEF) if self._init is not None else UNDEF
        if v is UNDEF:
            return default
        if loc[1] == "num" and isinstance(v, Num) and type(v.grid) is tuple and v.grid[:1] == ("phi",):
            v = self.prune(v, st)
        return v

    def pin(self, v, st):
        """a value with alternatives, where it is known which"""
        while isinstance(v, Phi):
            c = self.simp(v.cond, st)
            if c.op != "k":
                break
            v = v.a if c.args[0] else v.b
        return v

    def prune(self, n, st):
        """a number on one grid or another, where it is known which"""
        while type(n.grid) is tuple and n.grid[:1] == ("phi",):
            c = self.simp(n.grid[1], st)
            if c.op != "k":
                break
            k = 2 if c.args[0] else 3
            pick = lambda e: e.args[k - 1] if e is not None and e.op == "ite" and e.args[0] is n.grid[1] else e
            n = Num(pick(n.e), pick(n.unit), n.isq, n.grid[k], n.length, n.size, n.isidx)
        return n

    def wr(self, st, loc, v):
        st.store[loc] = v

    def start(self):
        self._init = {}
        return State()

    def effect(self, kind, ref, suffix, st, node=None, detail=None):
        o = self.o(ref) if isinstance(ref, Ref) else ref
        if o.region and o.path is not None:
            self.effects.append((kind, o.path + suffix, self.site(node), st.guard, detail))

    # -------------------------------------------------------------- conditions
    def simp(self, c, st):
        if c.op == "k":
            return c
        f = st.facts.get(c)
        if f is not None:
            return X.K(f)
        if c.op == "not":
            return X.NOT(self.simp(c.args[0], st))
        if c.op == "and":
            return X.AND(self.simp(c.args[0], st), self.simp(c.args[1], st))
        if c.op == "or":
            return X.OR(self.simp(c.args[0], st), self.simp(c.args[1], st))
        if c.op == "eqs":
            for k, v in st.facts.items():
                if v and k.op == "eqs" and k.args[0] == c.args[0] and k.args[1] != c.args[1]:
                    return X.FALSE
        if c.op == "ite":
            cc = self.simp(c.args[0], st)
            if cc.op == "k":
                return self.simp(c.args[1] if cc.args[0] else c.args[2], st)
        return c

    def truth(self, v, st, node=None):
        """boolean expression for the truth value"""
        if isinstance(v, Phi):
            c = self.simp(v.cond, st)
            if c.op == "k":
                return self.truth(v.a if c.args[0] else v.b, st, node)
            sa, sb = st.copy().assume(v.cond, True), st.copy().assume(v.cond, False)
            return X.ite(c, self.truth(v.a, sa, node), self.truth(v.b, sb, node))
        if v is None:
            return X.FALSE
        if isinstance(v, str):
            return X.K(bool(v))
        if isinstance(v, Tup):
            return X.K(bool(v.items))
        if isinstance(v, Num):
            if v.size is not None:
                return X.TRUE if v.size[0] == "wl" else X.K(bool(v.size[1]))
            if v.e.isb:
                if v.e.wl or (v.e.rows or 1) > 1:
                    return X.bvar("array-truth:%d" % v.e.id)
                if v.e.op not in ("k", "bvar", "has", "eqs"):
                    got = self.lib.settled(v.e)
                    if got is not None:
                        return X.K(bool(got[0]))
                return v.e
            if v.e.op == "k":
                return X.K(bool(v.e.args[0]))
            if v.e.op == "unk":
                return X.bvar("unk:%s" % v.e.args[0])
            return X.NOT(X.cmp("eq", v.e, X.ZERO))
        if isinstance(v, Ref):
            o = self.o(v)
            if o.kind == "num":
                return self.truth(self.num(v, st), st, node)
            if o.kind == "list":
                its = self.rd(st, (v.oid, "items"), ())
                r = X.FALSE
                for _, c in its:
                    r = X.OR(r, c)
                return r
            if o.kind in ("dict", "set", "table"):
                es = self.rd(st, (v.oid, "keys"), ())
                r = X.FALSE
                for _, c in es:
                    r = X.OR(r, c)
                return r
            if o.kind == "reg":
                n = self.rd(st, (v.oid, "num"), None)
                if n is not None:
                    return self.truth(n, st, node)
                if "truth" in o.hint:
                    return X.K(o.hint["truth"])
                if o.cls is not None:
                    return X.TRUE
                return X.bvar("truthy:%s" % o.path)
            return X.TRUE
        if isinstance(v, Unk):
            return X.bvar("unk:%s" % v.why)
        if isinstance(v, StrV):
            return X.bvar("truthy:%r" % (v.parts,))
        return X.TRUE

    # -------------------------------------------------------------- merging
    def mkphi(self, c, a, b):
        if a is b or (type(a) is type(b) and a == b):
            return a
        if c.op == "k":
            return a if c.args[0] else b
        if a is UNDEF and b is UNDEF:
            return UNDEF
        if isinstance(a, Num) and isinstance(b, Num):
            return self.itenum(c, a, b)
        if c.op == "not":
            return Phi(c.args[0], b, a)
        if isinstance(a, Phi) and a.cond is c:
            a = a.a
        if isinstance(b, Phi) and b.cond is c:
            b = b.b
        if type(a) is type(b) and not isinstance(a, (FnV, BM)) and a == b:
            return a
        return Phi(c, a, b)

    def itenum(self, c, a, b):
        e = X.ite(c, a.e, b.e)
        unit = a.unit
        if a.unit is not b.unit:
            if a.unit is None and b.unit is None:
                unit = None
            else:
                unit = X.ite(c, a.unit if a.unit is not None else X.ONE, b.unit if b.unit is not None else X.ONE)
        isq = a.isq if a.isq == b.isq else None
        grid = a.grid if a.grid == b.grid else (a.grid if b.grid is None else b.grid if a.grid is None else ("phi", c, a.grid, b.grid))
        return Num(e, unit, isq, grid, a.length if a.length is b.length else None, a.size if a.size == b.size else None, a.isidx and b.isidx)

    def merge_entries(self, c, a, b):
        """merge two ordered (key, cond) tuples"""
        if a == b:
            return a
        da, db = dict(a), dict(b)
        out = []
        used = set()
        order = [k for k, _ in a]
        # keep the order of a, insert b's extra keys after their predecessor
        seq = list(order)
        prev = None
        for k, _ in b:
            if k not in da:
                i = seq.index(prev) + 1 if prev in seq else (0 if prev is None else len(seq))
                seq.insert(i, k)
            prev = k
        for k in seq:
            ca, cb = da.get(k, X.FALSE), db.get(k, X.FALSE)
            if ca is cb:
                out.append((k, ca))
            else:
                out.append((k, X.OR(X.AND(c, ca), X.AND(X.NOT(c), cb))))
        return tuple(out)

    def merge_items(self, c, a, b):
        if a == b:
            return a
        i = 0
        while i < len(a) and i < len(b) and (a[i] == b[i]):
            i += 1
        ra, rb = a[i:], b[i:]
        if len(ra) == len(rb) and all(x[1] is y[1] for x, y in zip(ra, rb)):
            return a[:i] + tuple((self.mkphi(c, x[0], y[0]), x[1]) for x, y in zip(ra, rb))
        return a[:i] + tuple((v, X.AND(c, k)) for v, k in ra) + tuple((v, X.AND(X.NOT(c), k)) for v, k in rb)

    def merge(self, A, B):
        if A is B:
            return A
        p = 0
        ga, gb = A.guard, B.guard
        while p < len(ga) and p < len(gb) and ga[p] == gb[p]:
            p += 1
        ra, rb = ga[p:], gb[p:]
        if not ra:
            return A
        if not rb:
            return B
        c = conj(ra)
        cb = conj(rb)
        if len(ra) == 1 and len(rb) == 1 and ra[0][0] is rb[0][0] and ra[0][1] != rb[0][1]:
            extra = ()
        elif X.NOT(c) is cb or c is X.NOT(cb):
            extra = ()
        else:
            o = X.OR(c, cb)
            extra = () if (o.op == "k") else ((o, True),)
        # smaller condition for the gate: the first diverging literal when the others follow from it
        gate = c
        if len(ra) >= 1 and len(rb) >= 1 and ra[0][0] is rb[0][0] and ra[0][1] != rb[0][1]:
            gate = ra[0][0] if ra[0][1] else X.NOT(ra[0][0])
        st = State({}, ga[:p] + extra, {})
        for k, v in A.facts.items():
            if B.facts.get(k) == v:
                st.facts[k] = v
        sa, sb = A.store, B.store
        out = dict(sa)
        for loc, vb in sb.items():
            va = sa.get(loc, UNDEF)
            if va is vb:
                continue
            if va is UNDEF:
                va = self._init.get(loc, UNDEF)
                if va is UNDEF:
                    if loc[0] == "L":
                        out[loc] = Phi(gate, UNDEF, vb)
                    elif loc[1] in ("attr", "item") and (loc[0], "exists") not in ():
                        out[loc] = vb if not self._shared(loc, sa) else Phi(gate, UNDEF, vb)
                    else:
                        out[loc] = vb
                    continue
            out[loc] = self.merge_loc(gate, loc, va, vb)
        for loc, va in sa.items():
            if loc in sb:
                continue
            vb = self._init.get(loc, UNDEF)
            if vb is UNDEF:
                if loc[0] == "L":
                    out[loc] = Phi(gate, va, UNDEF)
                elif loc[1] in ("attr", "item") and self._shared(loc, sb):
                    out[loc] = Phi(gate, va, UNDEF)
                continue
            out[loc] = self.merge_loc(gate, loc, va, vb)
        st.store = out
        return st

    def _shared(self, loc, other):
        """the object exists in the other state too (it has been created before the fork)"""
        oid = loc[0]
        if loc[1] == "item":
            return False  # guarded by the conditional entries of the container
        o = self.objs[oid]
        if o.region:
            return True
        return (oid, "born") in other or (self._init is not None and (oid, "born") in self._init)

    def partial(self, x):
        """a value that is missing in some case, below the top level"""
        return isinstance(x, Phi) and any(y is UNDEF or self.partial(y) for y in (x.a, x.b))

    def complete(self, x, d):
        """a value with a default where it is missing"""
        if x is UNDEF:
            return d
        return self.mkphi(x.cond, self.complete(x.a, d), self.complete(x.b, d)) if self.partial(x) else x

    def merge_loc(self, gate, loc, va, vb):
        if loc[0] != "L":
            if loc[1] == "keys":
                return self.merge_entries(gate, va, vb)
            if loc[1] == "items":
                return self.merge_items(gate, va, vb)
            if loc[1] == "born":
                return va
        return self.mkphi(gate, va, vb)

    def merge_all(self, sts):
        s = sts[0]
        for t in sts[1:]:
            s = self.merge(s, t)
        return s

    def split(self, v, st, f):
        """apply f(value, state) under the gates of v"""
        if not isinstance(v, Phi):
            return f(v, st)
        c = self.simp(v.cond, st)
        if c.op == "k":
            return self.split(v.a if c.args[0] else v.b, st, f)
        sa, sb = st.copy().assume(v.cond, True), st.copy().assume(v.cond, False)
        ra = rb = UNDEF
        da = db = False
        try:
            ra = self.split(v.a, sa, f)
        except Diverge:
            da = True
        try:
            rb = self.split(v.b, sb, f)
        except Diverge:
            db = True
        if da and db:
            raise Diverge()
        if da:
            st.become(sb)
            return rb
        if db:
            st.become(sa)
            return ra
        m = self.merge(sa, sb)
        st.become(m)
        return self.mkphi(c, ra, rb)

    def unmodelled(self, cls, name, node):
        """a stand-in for a class of a library may lack what the class has"""
        here = self.call_stack[-1][1] if self.call_stack else None
        if here != "exorad._probe" and self.res is not None and cls is not None and cls.mod.name == "exorad._probe" and not self.repo.repo_based(cls):
            self.res.lost = "a stand-in %s without %s @ %s" % (cls.name, name, self.site(node))

    def missing_attr(self, st, node):
        self.pend("AttributeError", st, node)
        raise Diverge()

    # -------------------------------------------------------------- numbers
    def num(self, v, st):
        """numeric content or None"""
        if isinstance(v, Num):
            return v
        if v is UNDEF:
            return Num(X.unk("undefined"))
        if isinstance(v, Phi):
            c = self.simp(v.cond, st)
            if c.op == "k":
                return self.num(v.a if c.args[0] else v.b, st)
            a, b = self.num(v.a, st.view(v.cond, True)), self.num(v.b, st.view(v.cond, False))
            if a is None and b is None:
                return None
            if a is None:
                a = Num(X.unk("not a number: %r" % (v.a,)), None, b.isq)
            if b is None:
                b = Num(X.unk("not a number: %r" % (v.b,)), None, a.isq)
            return self.itenum(c, a, b)
        if isinstance(v, Ref):
            n = self.rd(st, (v.oid, "num"), None)
            if n is not None:
                return n
            o = self.o(v)
            if o.kind == "reg":
                b = o
                while b.base is not None and b.base[0] is not None:
                    # copy of a region: read through
                    bo = self.objs[b.base[0]]
                    n = self.rd(b.base[1], (bo.oid, "num"), None)
                    if n is not None:
                        return n
                    b = bo
                if o.cls is not None:
                    return None
                return Num(X.var(o.path), X.uof(o.path), None)
            if o.kind == "list":
                return self.stacknum([x for x, c in self.rd(st, (v.oid, "items"), ())], [c for x, c in self.rd(st, (v.oid, "items"), ())], st)
            return None
        if isinstance(v, Tup):
            return self.stacknum(v.items, None, st)
        if isinstance(v, Unk):
            return Num(X.unk(v.why), X.unk(v.why), None)
        if isinstance(v, UnitV):
            return Num(v.e, v.e, True)
        return None

    def stacknum(self, items, conds, st):
        if conds and any(c is not X.TRUE for c in conds):
            return Num(X.unk("conditional list"), None, None)
        ns = []
        for x in items:
            n = self.num(x, st)
            if n is None:
                return None
            ns.append(n)
        if not ns:
            return None
        if any(n.e.rows is not None for n in ns):
            if len(ns) == 1 and ns[0].e.rows is not None:
                return Num(ns[0].e, ns[0].unit, ns[0].isq, ns[0].grid)
            return Num(X.unk("stack of arrays"), None, None)
        u = ns[0].unit
        isq = ns[0].isq
        if any(n.isq != isq for n in ns):
            isq = None
        grid = next((n.grid for n in ns if n.grid is not None), None)
        return Num(X.stack([n.e for n in ns]), u, isq, grid)

    def box(self, n):
        """a fresh numeric object (arrays and quantities have identity)"""
        if not isinstance(n, Num):
            return n
        if (n.e.op == "k" and n.isq is False) or n.size is not None:
            return n
        return n

    def cell(self, st, n, site=None):
        r = self.new("num", site=site)
        self.wr(st, (r.oid, "num"), n)
        self.wr(st, (r.oid, "born"), True)
        return r

    def fresh(self, st, n):
        if isinstance(n, Num) and (n.isq is not False or n.e.rows is not None or n.e.wl or n.length is not None) and n.size is None:
            return self.cell(st, n)
        return n

    def pathname(self, v):
        if isinstance(v, Ref):
            return self.o(v).path
        return None

    # -------------------------------------------------------------- region access
    def child(self, ref, kind, key, st):
        """region child (kind 'attr' or 'item')"""
        o = self.o(ref)
        loc = (ref.oid, kind, key)
        if kind == "item" or o.cls is None:
            self.opaque += 1
        v = st.store.get(loc, UNDEF)
        if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
            base = self._child0(ref, o, kind, key, st)
            a = base if v.a is UNDEF else v.a
            b = base if v.b is UNDEF else v.b
            return self.mkphi(self.simp(v.cond, st), a, b)
        if v is not UNDEF:
            return v
        return self._child0(ref, o, kind, key, st)

    def _child0(self, ref, o, kind, key, st):
        loc = (ref.oid, kind, key)
        v = self._init.get(loc, UNDEF)
        if v is not UNDEF:
            return v
        if o.base is not None and o.base[0] is not None:
            bo, snap, deep = o.base
            src = self.child(Ref(bo), kind, key, snap)
            v = self.lib.copyval(src, snap, st, deep, region_init=True)
        else:
            path = (o.path or "?%d" % o.oid) + ((".%s" if kind == "attr" else "[%s]") % (key,))
            h = self.hint_fn(path) or {}
            v = self.materialise(path, h, o.region)
        self._init[loc] = v
        return v

    # -------------------------------------------------------------- attributes
    def getattr(self, v, name, st, node=None):
        return self.split(v, st, lambda x, s: self._getattr(x, name, s, node))

    def _getattr(self, v, name, st, node):
        if v is None or v is UNDEF:
            self.pend("AttributeError", st, node)
            raise Diverge()
        if isinstance(v, Unk):
            return v
        if isinstance(v, ModV):
            r = self.repo.lookup(v.name, name)
            if r is None:
                return self.unk("module attribute %s.%s" % (v.name, name), node)
            return self.resolved(r, st, v.name, name)
        if isinstance(v, Ext):
            return self.lib.extattr(v.name + "." + name)
        if isinstance(v, SuperV):
            so = self.objcls(v.self_)
            k, m = self.repo.find_method(so or v.cls, name, after=v.cls)
            if m is None:
                return BM("object." + name, v.self_)
            return Bound(FnV(m, k.mod.name, k), v.self_)
        if isinstance(v, ClsV):
            k, m = self.repo.find_method(v.cls, name)
            if m is not None:
                fn = FnV(m, k.mod.name, k)
                if self.decor(m, "classmethod"):
                    return Bound(fn, v)
                return fn
            k, a = self.repo.find_attr(v.cls, name)
            if k is not None:
                return self.clsattr(k, name, a, st)
            if name == "__name__":
                return v.cls.name
            return self.unk("class attribute %s.%s" % (v.cls.name, name), node)
        if isinstance(v, Ref):
            o = self.o(v)
            if o.kind in ("inst", "reg"):
                if name == "__class__" and o.cls is not None:
                    return ClsV(o.cls)
                if name == "__dict__":
                    return BM("__dict__", v)
                if o.kind == "inst":
                    x = self.rd(st, (v.oid, "attr", name))
                    if x is not UNDEF and not self.partial(x):
                        return x
                    if isinstance(x, Phi):
                        c = self.simp(x.cond, st)
                        y = (x.a if c.args[0] else x.b) if c.op == "k" else x
                        if y is not UNDEF and not self.partial(y):
                            return y
                        d = self.clsmember(v, o.cls, name, st, node)
                        if d is not UNDEF:
                            return self.complete(y, d)
                        return self.split(y, st, lambda z, s: z if z is not UNDEF else self.missing_attr(s, node))
                    d = self.clsmember(v, o.cls, name, st, node)
                    if d is not UNDEF:
                        return d
                    self.unmodelled(o.cls, name, node)
                    self.pend("AttributeError", st, node)
                    raise Diverge()
                # region
                x = st.store.get((v.oid, "attr", name), UNDEF)
                if x is UNDEF and o.cls is not None:
                    if self.hint_fn((o.path or "") + "." + name) is None:
                        d = self.clsmember(v, o.cls, name, st, node, region=True)
                        if d is not UNDEF:
                            return d
                if x is UNDEF:
                    r = self.lib.regattr(v, o, name, st, node)
                    if r is not UNDEF:
                        return r
                c = X.has(o.path, "." + name)
                if x is DELETED:
                    self.pend("AttributeError", st, node)
                    raise Diverge()
                if isinstance(x, Phi) and (x.a is DELETED or x.b is DELETED):
                    gone = self.simp(x.cond if x.a is DELETED else X.NOT(x.cond), st)
                    if gone is X.TRUE:
                        self.pend("AttributeError", st, node)
                        raise Diverge()
                    if gone is not X.FALSE:
                        s2 = st.copy()
                        s2.assume(gone, True)
                        self.pend("AttributeError", s2, node)
                        st.assume(gone, False)
                    y = x.b if x.a is DELETED else x.a
                    if y is UNDEF:
                        del st.store[(v.oid, "attr", name)]
                        return self._getattr(v, name, st, node)
                    st.store[(v.oid, "attr", name)] = y
                    return self._getattr(v, name, st, node)
                if self.catchable("AttributeError"):
                    c = self.simp(self.hasattr(v, name, st), st)
                    if c is X.FALSE:
                        self.pend("AttributeError", st, node)
                        raise Diverge()
                    if c is not X.TRUE:
                        self.pend("AttributeError", st.copy().assume(c, False), node)
                        st.assume(c, True)
                return self.child(v, "attr", name, st)
            return self.lib.objattr(v, o, name, st, node)
        return self.lib.valattr(v, name, st, node)

    def objcls(self, v):
        if isinstance(v, Ref):
            return self.o(v).cls if self.o(v).kind in ("inst", "reg") else None
        if isinstance(v, ClsV):
            return v.cls
        return None

    def decor(self, node, name):
        return any((isinstance(d, ast.Name) and d.id == name) or (isinstance(d, ast.Attribute) and d.attr == name) for d in getattr(node, "decorator_list", []))

    def clsmember(self, v, cls, name, st, node, region=False):
        if cls is None:
            return UNDEF
        for k in self.repo.mro(cls):
            if name not in k.methods and isinstance(k.attrs.get(name), ast.Name) and k.attrs[name].id in k.methods:
                name = k.attrs[name].id     # another name of a method
            if name in k.methods:
                m = k.methods[name]
                fn = FnV(m, k.mod.name, k)
                if self.decor(m, "staticmethod"):
                    return fn
                if self.decor(m, "classmethod"):
                    return Bound(fn, ClsV(cls))
                if self.decor(m, "property"):
                    return self.call(Bound(fn, v), [], {}, st, node)
                return Bound(fn, v)
            if name in k.attrs:
                if region:
                    return UNDEF
                return self.clsattr(k, name, k.attrs[name], st)
        return UNDEF

    def clsattr(self, k, name, expr_, st):
        loc = ("C", k.mod.name + "." + k.name, name)
        v = st.store.get(loc, self._init.get(loc, UNDEF))
        if v is UNDEF:
            fr = Frame(k.mod.name, k)
            s = State()
            try:
                v = self.ev(expr_, s, fr)
            except Diverge:
                v = self.unk("class attribute %s" % name)
            for l, x in s.store.items():
                self._init.setdefault(l, x)
            self._init[loc] = v
        return v

    def setattr(self, v, name, val, st, node=None):
        def f(x, s):
            if isinstance(x, Ref):
                o = self.o(x)
                if o.kind in ("inst", "reg") and o.cls is not None:
                    k, m = self.repo.find_method(o.cls, name + "!set")
                    if m is not None:
                        self.call(Bound(FnV(m, k.mod.name, k), x), [val], {}, s, node)
                        return None
                if o.kind in ("inst", "reg"):
                    if o.region:
                        self.effect("setattr", x, "." + name, s, node, val)
                    self.wr(s, (x.oid, "attr", name), val)
                    if o.kind == "reg" or (x.oid, "hasattrs") in s.store:
                        pass
                    return None
                self.lib.setattr(x, o, name, val, s, node)
                return None
            if isinstance(x, ClsV):
                self.wr(s, ("C", x.cls.mod.name + "." + x.cls.name, name), val)
                self.effects.append(("classattr", "%s.%s" % (x.cls.name, name), self.site(node), s.guard, None))
                return None
            if isinstance(x, ModV):
                self.wr(s, ("G", x.name, name), val)
                return None
            if isinstance(x, Ext):
                self.effects.append(("extattr", "%s.%s" % (x.name, name), self.site(node), s.guard, None))
            return None
        self.split(v, st, f)

    def hasattr(self, v, name, st):
        """boolean expression"""
        if isinstance(v, Phi):
            c = self.simp(v.cond, st)
            if c.op == "k":
                return self.hasattr(v.a if c.args[0] else v.b, name, st)
            return X.ite(c, self.hasattr(v.a, name, st), self.hasattr(v.b, name, st))
        if v is None or isinstance(v, str):
            return X.K(hasattr(v, name))
        if isinstance(v, StrV):
            return X.K(hasattr("", name))
        if isinstance(v, Num):
            if name in ("unit", "value"):
                if v.isq is None:
                    return X.bvar("isq:%d" % v.e.id)
                if v.isq == "col":
                    return X.K(name == "unit")
                return X.K(bool(v.isq))
            if name in ("size", "shape"):
                return X.K(v.e.rows is not None or v.e.wl or bool(v.isq))
            return X.FALSE
        if isinstance(v, Ref):
            o = self.o(v)
            if o.kind == "num":
                return self.hasattr(self.num(v, st), name, st)
            if name == "__dict__" and o.kind in ("inst", "table"):
                return X.TRUE
            if name in ("__class__", "__doc__", "__module__"):
                return X.TRUE
            if o.kind in ("inst", "reg"):
                # a value read earlier off an input says nothing about its presence
                x = st.store.get((v.oid, "attr", name), UNDEF) if o.kind == "reg" else self.rd(st, (v.oid, "attr", name))
                if x is not UNDEF:
                    if isinstance(x, Phi) and (x.a is DELETED or x.b is DELETED):
                        c = self.simp(x.cond, st)
                        s1, s2 = st.copy(), st.copy()
                        r = []
                        for y, s_ in ((x.a, s1), (x.b, s2)):
                            if y is UNDEF:
                                s_.store.pop((v.oid, "attr", name), None)
                            else:
                                s_.store[(v.oid, "attr", name)] = y
                            r.append(self.hasattr(v, name, s_))
                        return X.ite(c, r[0], r[1])
                    if isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF):
                        miss = X.has(o.path or "", "." + name) if o.kind == "reg" else X.FALSE
                        return X.ite(x.cond, miss if x.a is UNDEF else X.TRUE, miss if x.b is UNDEF else X.TRUE)
                    if x is DELETED:
                        return X.FALSE
                    return X.TRUE
                if o.cls is not None:
                    for k in self.repo.mro(o.cls):
                        if name in k.methods or name in k.attrs:
                            return X.TRUE
                if o.kind == "inst":
                    return X.FALSE
                h = self.hint_fn((o.path or "") + "." + name)
                if h is not None and h.get("has") is not None:
                    return X.K(h["has"])
                if o.base is not None and o.base[0] is not None:
                    return self.hasattr(Ref(o.base[0]), name, o.base[1])
                if "unit" == name and o.cls is None:
                    q = o.hint.get("isq")
                    if q is not None:
                        return X.K(bool(q))
                return X.has(o.path, "." + name)
            return X.K(name in {"table": ("meta", "colnames", "keys", "columns"), "dict": ("keys", "items")}.get(o.kind, ()))
        if isinstance(v, ClsV):
            k, m = self.repo.find_method(v.cls, name)
            k2, _ = self.repo.find_attr(v.cls, name)
            return X.K(m is not None or k2 is not None)
        return X.bvar("hasattr:%r.%s" % (v, name))

    # -------------------------------------------------------------- exceptions
    def pend(self, exc, st, node, guard_state=None):
        """an exception of the named type is raised in state st"""
        for i, ctx in enumerate(reversed(self.try_stack)):
            if ctx["catches"](exc):
                ctx["pend"].append((st.copy(), exc))
                return True
            if "fin" in ctx and any(c["catches"](exc) for c in self.try_stack[:len(self.try_stack) - 1 - i]):
                ctx["fin"].append((st.copy(), exc, node))
                return True
        self.raises.append((exc, st.guard, self.site(node)))
        return False

    def catchable(self, exc):
        return any(ctx["catches"](exc) for ctx in self.try_stack)

    # -------------------------------------------------------------- names
    def resolved(self, r, st, mod, name):
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "def":
            return FnV(r[2], r[1].name)
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return self.lib.extattr(r[1])
        if r[0] == "assign":
            m, exprs = r[1], r[2]
            # find the defining name
            nm = name
            if nm not in m.assigns:
                nm = next((n for n, es in m.assigns.items() if es is exprs), name)
            loc = ("G", m.name, nm)
            v = st.store.get(loc, self._init.get(loc, UNDEF))
            if v is UNDEF:
                fr = Frame(m.name)
                s = State()
                self.call_stack.append(("<module>", m.name))
                try:
                    v = self.ev(exprs[-1], s, fr)
                except Diverge:
                    v = self.unk("module variable %s" % name)
                finally:
                    self.call_stack.pop()
                for l, x in s.store.items():
                    self._init.setdefault(l, x)
                self._init[loc] = v
            return v
        return self.unk("name %s" % name)

    def name(self, id_, st, fr, node=None):
        f = fr
        while f is not None:
            loc = ("L", f.id, id_)
            v = st.store.get(loc, UNDEF)
            if v is not UNDEF:
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    c = self.simp(v.cond, st)
                    if c.op == "k":
                        v = v.a if c.args[0] else v.b
                        if v is UNDEF:
                            self.effects.append(("undef", id_, self.site(node), st.guard, None))
                            return self.unk("undefined name %s" % id_, node)
                        return v
                    self.effects.append(("maybe-undef", id_, self.site(node), st.guard, c if v.a is UNDEF else X.NOT(c)))
                    if f is fr and f.fn is not None and not any(l.op == "bvar" and str(l.args[0]).startswith("unk") for l in X.leaves(c)):
                        self.pend("UnboundLocalError", st.copy().assume(c, v.a is UNDEF), node)
                    st.assume(c, v.a is not UNDEF)
                    return v.b if v.a is UNDEF else v.a
                return v
            if id_ in f.locals and id_ not in f.globals:
                if f is fr and f.fn is not None:
                    self.effects.append(("undef", id_, self.site(node), st.guard, None))
                    self.pend("UnboundLocalError", st, node)
                    raise Diverge()
            if id_ in f.imports:
                r = self.repo.resolve_import(f.imports[id_])
                if r is None:
                    return self.unk("import %s" % id_, node)
                return self.resolved(r, st, f.mod, f.imports[id_][-1])
            f = f.parent
        loc = ("G", fr.mod, id_)
        v = st.store.get(loc, UNDEF)
        if v is not UNDEF:
            return v
        r = self.repo.lookup(fr.mod, id_)
        if r is not None:
            return self.resolved(r, st, fr.mod, id_)
        if fr.cls is not None and f is None and id_ in fr.cls.attrs and fr.fn is None:
            return self.clsattr(fr.cls, id_, fr.cls.attrs[id_], st)
        if id_ in ("__name__", "__file__"):
            return fr.mod if id_ == "__name__" else self.repo.placed(fr.mod) or StrV((fr.mod + ".__file__",))
        if hasattr(builtins, id_):
            return Ext("builtins." + id_)
        if self.unbound(fr.mod, id_):
            self.pend("NameError", st, node)
            raise Diverge()
        return self.unk("name %s" % id_, node)

    def unbound(self, mod, id_):
        """nothing in the module gives this name a meaning"""
        m = self.repo.modules.get(mod)
        if m is None:
            return False
        if not hasattr(m, "binds"):
            m.binds = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    m.binds.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    m.binds.add(n.name)
                elif isinstance(n, ast.arg):
                    m.binds.add(n.arg)
                elif isinstance(n, ast.alias):
                    m.binds.add("*" if n.name == "*" else n.asname or n.name.split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    m.binds.add(n.name)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    m.binds.add(n.name)
        return id_ not in m.binds and "*" not in m.binds and "." not in id_

    def assign(self, target, v, st, fr):
        if isinstance(target, ast.Name):
            self.setname(target.id, v, st, fr)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st, fr)
            self.setattr(o, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, st, fr)
            k = self.ev(target.slice, st, fr)
            self.setitem(o, k, v, st, target)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            items = self.unpack(v, n if not star else None, st, target)
            if star:
                i = star[0]
                if items is None:
                    for t in target.elts:
                        self.assign(t.value if isinstance(t, ast.Starred) else t, self.unk("unpack", target), st, fr)
                    return
                tail = n - i - 1
                mid = items[i: len(items) - tail]
                seq = items[:i] + [self.lib.mklist(st, mid)] + items[len(items) - tail:]
                for t, x in zip(target.elts, seq):
                    self.assign(t.value if isinstance(t, ast.Starred) else t, x, st, fr)
                return
            for i, t in enumerate(target.elts):
                self.assign(t, items[i] if items is not None and i < len(items) else self.unk("unpack", target), st, fr)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, fr)

    def unpack(self, v, n, st, node):
        if isinstance(v, Phi):
            c = self.simp(v.cond, st)
            if c.op == "k":
                return self.unpack(v.a if c.args[0] else v.b, n, st, node)
            a, b = self.unpack(v.a, n, st, node), self.unpack(v.b, n, st, node)
            if a is None or b is None or len(a) != len(b):
                return None
            return [self.mkphi(c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Tup):
            return list(v.items)
        its = self.iterate(v, st, node, expect=n)
        if its is None:
            if isinstance(v, Ref) and self.o(v).kind == "reg" and n is not None:
                return [self.child(v, "item", i, st) for i in range(n)]
            return None
        return [x for x, c in its]

    def setname(self, id_, v, st, fr):
        if id_ in fr.globals:
            old = st.store.get(("G", fr.mod, id_))
            self.wr(st, ("G", fr.mod, id_), v)
            self.effects.append(("global", "%s.%s" % (fr.mod, id_), self.site(), st.guard, v))
            return
        f = fr
        if id_ in fr.nonlocals:
            f = fr.parent
            while f is not None and ("L", f.id, id_) not in st.store:
                f = f.parent
            f = f or fr
        self.wr(st, ("L", f.id, id_), v)

    def getitem(self, v, k, st, node=None):
        if isinstance(k, Phi):
            return self.split(k, st, lambda kk, s: self.getitem(v, kk, s, node))
        return self.split(v, st, lambda x, s: self.lib.getitem(x, k, s, node))

    def setitem(self, v, k, val, st, node=None):
        if isinstance(k, Phi):
            return self.split(k, st, lambda kk, s: self.setitem(v, kk, val, s, node))
        return self.split(v, st, lambda x, s: self.lib.setitem(x, k, val, s, node))

    def iterate(self, v, st, node=None, expect=None):
        """list of (value, presence condition) or None"""
        if v is None:
            self.pend("TypeError", st, node)
            raise Diverge()
        return self.lib.iterate(v, st, node, expect)

    # -------------------------------------------------------------- statements
    def exec_block(self, body, st, fr):
        outs = []
        cur = st
        for s in body:
            try:
                res = self.exec_stmt(s, cur, fr)
            except Diverge:
                return outs
            ns = []
            for o in res:
                if o[0] == "n":
                    ns.append(o[1])
                else:
                    outs.append(o)
            if not ns:
                return outs
            cur = self.merge_all(ns) if len(ns) > 1 else ns[0]
        outs.append(("n", cur, None))
        return outs

    def exec_stmt(self, s, st, fr):
        self.budget -= 1
        if self.budget < 0:
            raise Broken("analysis budget exhausted")
        self.cur_line = getattr(s, "lineno", self.cur_line)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unk("statement %s" % type(s).__name__, s)
            return [("n", st, None)]
        return m(s, st, fr)

    N = staticmethod(lambda st: [("n", st, None)])

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return self.N(st)
        self.ev(s.value, st, fr)
        return self.N(st)

    def st_Pass(self, s, st, fr):
        return self.N(st)

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return self.N(st)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return self.N(st)

    def st_AugAssign(self, s, st, fr):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st, fr, s)
            v = self.inplace(s.op, cur, self.ev(s.value, st, fr), st, s)
            self.setname(s.target.id, v, st, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, st, fr)
            cur = self.getattr(o, s.target.attr, st, s)
            v = self.inplace(s.op, cur, self.ev(s.value, st, fr), st, s)
            self.setattr(o, s.target.attr, v, st, s)
        else:
            o = self.ev(s.target.value, st, fr)
            k = self.ev(s.target.slice, st, fr)
            cur = self.getitem(o, k, st, s)
            v = self.inplace(s.op, cur, self.ev(s.value, st, fr), st, s)
            self.setitem(o, k, v, st, s)
        return self.N(st)

    def inplace(self, op, cur, val, st, node):
        def f(x, s):
            return self.lib.inplace(op, x, val, s, node)
        return self.split(cur, st, f)

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else None
        return [("r", st, v)]

    def st_Break(self, s, st, fr):
        return [("b", st, None)]

    def st_Continue(self, s, st, fr):
        return [("c", st, None)]

    def st_Raise(self, s, st, fr):
        exc = "Exception"
        val = None
        if s.exc is not None:
            n = s.exc
            try:
                if isinstance(n, ast.Call):
                    for a in n.args:
                        self.ev(a, st, fr)
                    n = n.func
                exc = self.excname(n, st, fr)
            except Diverge:
                return []
        else:
            exc = getattr(fr, "handling", "Exception") or "Exception"
        return [("x", st, exc)]

    def st_Assert(self, s, st, fr):
        c = self.simp(self.truth(self.ev(s.test, st, fr), st), st)
        if c.op != "k":
            st.assume(c, True)
        return self.N(st)

    def st_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return self.N(st)

    def st_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return self.N(st)

    def st_Import(self, s, st, fr):
        m = self.repo.modules.get(fr.mod)
        m.add_import(s, fr.imports)
        for al in s.names:
            st.store.pop(("L", fr.id, al.asname or al.name.split(".")[0]), None)
            fr.locals.discard(al.asname or al.name.split(".")[0])
        return self.N(st)

    def st_ImportFrom(self, s, st, fr):
        m = self.repo.modules.get(fr.mod)
        m.add_import(s, fr.imports)
        for al in s.names:
            fr.locals.discard(al.asname or al.name)
            st.store.pop(("L", fr.id, al.asname or al.name), None)
        return self.N(st)

    def st_FunctionDef(self, s, st, fr):
        self.setname(s.name, FnV(s, fr.mod, fr.cls, fr, defaults=self.defaults(s, st, fr)), st, fr)
        return self.N(st)

    def defaults(self, s, st, fr):
        return ([self.ev(d, st, fr) for d in s.args.defaults], [None if d is None else (self.ev(d, st, fr),) for d in s.args.kw_defaults])

    def st_ClassDef(self, s, st, fr):
        from .repo import Class
        self.setname(s.name, ClsV(Class(s.name, s, self.repo.modules[fr.mod])), st, fr)
        return self.N(st)

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.store.pop(("L", fr.id, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr)
                self.delattr(o, t.attr, st, t)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.split(o, st, lambda x, s_: self.lib.delitem(x, k, s_, t))
        return self.N(st)

    def delattr(self, o, name, st, node):
        def f(x, s_):
            if isinstance(x, Ref):
                ob = self.o(x)
                self.effect("delattr", x, "." + name, s_, node)
                if ob.kind == "reg":
                    self.wr(s_, (x.oid, "attr", name), DELETED)
                else:
                    s_.store.pop((x.oid, "attr", name), None)
        self.split(o, st, f)

    def st_If(self, s, st, fr):
        c = self.simp(self.truth(self.ev(s.test, st, fr), st, s), st)
        if c.op == "k":
            return self.exec_block(s.body if c.args[0] else s.orelse, st, fr)
        sa, sb = st.copy().assume(c, True), st.copy().assume(c, False)
        return self.exec_block(s.body, sa, fr) + self.exec_block(s.orelse, sb, fr)

    def loop_body(self, body, cur, fr, outs):
        """-> (normal state or None, break states)"""
        brk, nxt = [], []
        for o in self.exec_block(body, cur, fr):
            if o[0] in ("n", "c"):
                nxt.append(o[1])
            elif o[0] == "b":
                brk.append(o[1])
            else:
                outs.append(o)
        return (self.merge_all(nxt) if nxt else None), brk

    def st_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        if isinstance(itv, Phi):
            c = self.simp(itv.cond, st)
            if c.op == "k":
                itv = itv.a if c.args[0] else itv.b
            else:
                outs = []
                for val, br in ((True, itv.a), (False, itv.b)):
                    s2 = st.copy().assume(itv.cond, val)
                    outs += self._for(s, br, s2, fr)
                return outs
        return self._for(s, itv, st, fr)

    def _for(self, s, itv, st, fr):
        if isinstance(itv, Phi):
            c = self.simp(itv.cond, st)
            if c.op == "k":
                return self._for(s, itv.a if c.args[0] else itv.b, st, fr)
            return self._for(s, itv.a, st.copy().assume(itv.cond, True), fr) + self._for(s, itv.b, st.copy().assume(itv.cond, False), fr)
        items = self.iterate(itv, st, s)
        outs, brks = [], []
        if items is None:
            self.unk("loop over %r" % (itv,), s)
            self.havoc(s, st, fr)
            return [("n", st, None)]
        cur = st
        for v, cond in items:
            cond = self.simp(cond, cur)
            if cond is X.FALSE:
                continue
            skip = None
            if cond is not X.TRUE:
                skip = cur.copy().assume(cond, False)
                cur = cur.assume(cond, True)
            try:
                self.assign(s.target, v, cur, fr)
                cur, b = self.loop_body(s.body, cur, fr, outs)
            except Diverge:
                cur, b = None, []
            brks += b
            if skip is not None:
                cur = self.merge(cur, skip) if cur is not None else skip
            if cur is None:
                break
        if cur is not None:
            for o in self.exec_block(s.orelse, cur, fr):
                if o[0] == "n":
                    brks.append(o[1])
                else:
                    outs.append(o)
        if brks:
            outs.append(("n", self.merge_all(brks), None))
        return outs

    def st_While(self, s, st, fr):
        outs, brks = [], []
        cur = st
        free = 0
        for _ in range(24):
            c = self.simp(self.truth(self.ev(s.test, cur, fr), cur, s), cur)
            if c.op == "k" and not c.args[0]:
                for o in self.exec_block(s.orelse, cur, fr):
                    (brks.append(o[1]) if o[0] == "n" else outs.append(o))
                cur = None
                break
            if c.op != "k":
                over = cur.copy().assume(c, False)
                for o in self.exec_block(s.orelse, over, fr):
                    (brks.append(o[1]) if o[0] == "n" else outs.append(o))
                cur.assume(c, True)
                free += 1
                if free > 6:
                    self.unk("loop with an unknown bound", s)
                    self.havoc(s, cur, fr)
                    brks.append(cur)
                    cur = None
                    break
            cur, b = self.loop_body(s.body, cur, fr, outs)
            brks += b
            if cur is None:
                break
        if cur is not None:
            self.unk("loop with a large bound", s)
            self.havoc(s, cur, fr)
            brks.append(cur)
        if brks:
            outs.append(("n", self.merge_all(brks), None))
        return outs

    @staticmethod
    def beyond_names(s):
        """what a loop that is not followed may change other than its local names; None when nothing"""
        if any(isinstance(n, ast.Raise) for n in ast.walk(s)):
            return "a loop that is not followed raises"
        quiet = {"debug", "info", "warning", "error", "critical", "format", "keys", "items", "values", "copy", "min", "max", "sum", "mean", "any", "all", "argmin", "argmax", "astype", "flatten", "ravel", "tolist", "index", "count", "std", "isdigit", "is_file", "is_dir", "exists", "lower", "upper", "strip", "to", "get", "split", "join", "startswith", "endswith"}
        for n in ast.walk(s):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                if isinstance(n, ast.Attribute) or not isinstance(b, ast.Name):
                    return "a loop that is not followed stores into an object"
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in quiet:
                b = n.func.value
                while isinstance(b, ast.Attribute):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id in ("np", "numpy", "u", "os", "math", "copy")):
                    return "a loop that is not followed calls %s" % n.func.attr
        return None

    def havoc(self, s, st, fr):
        """forget what the statement may assign"""
        why = self.beyond_names(s)
        if why and self.res is not None:
            self.res.lost = "%s @ %s" % (why, self.site(s))
        for n in ast.walk(s):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                tg = [n.target]
            for t in tg:
                for m in ast.walk(t):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        self.setname(m.id, self.unk("assigned in a loop", s), st, fr)
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    try:
                        self.assign(t, self.unk("assigned in a loop", s), st, fr)
                    except Diverge:
                        pass

    def st_With(self, s, st, fr):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            w = v
            cls = self.objcls(v) if isinstance(v, Ref) else None
            if cls is not None and self.repo.find_method(cls, "__enter__")[1] is not None:
                w = self.call(self.getattr(v, "__enter__", st, s), [], {}, st, s)
                exits.append(v)
            elif isinstance(v, Ref):
                w = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, st, fr)
        outs = []
        ctx = {"catches": lambda e: False, "pend": [], "fin": []}
        if exits:
            self.try_stack.append(ctx)
        try:
            body = self.exec_block(s.body, st, fr)
        finally:
            if exits:
                self.try_stack.pop()
        for o in body:
            exc = o[0] == "x"
            try:
                for v in reversed(exits):
                    exc = self.leave(v, o[1], s, o[2] if exc else None)
            except Diverge:
                continue
            outs.append(o if o[0] != "x" or exc else ("n", o[1], None))
        for stx, name, node in ctx["fin"]:
            exc = True
            try:
                for v in reversed(exits):
                    exc = self.leave(v, stx, s, name if exc else None)
            except Diverge:
                continue
            if exc:
                self.pend(name, stx, node)
            else:
                outs.append(("n", stx, None))
        return outs

    def leave(self, v, st, s, exc):
        """leave a context manager; true when an exception goes on"""
        args = [None, None, None] if exc is None else [Ext("builtins." + exc), Unk("exception object"), Unk("traceback")]
        r = self.call(self.getattr(v, "__exit__", st, s), args, {}, st, s)
        if exc is None:
            return False
        t = self.simp(self.truth(r, st), st) if r is not None else X.FALSE
        return not (t.op == "k" and t.args[0])

    EXC_PARENTS = {
        "KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"), "ValueError": ("Exception",), "TypeError": ("Exception",),
        "AttributeError": ("Exception",), "OSError": ("IOError", "EnvironmentError", "Exception"), "IOError": ("OSError", "Exception"),
        "FileNotFoundError": ("OSError", "IOError", "Exception"), "UnitConversionError": ("UnitsError", "ValueError", "TypeError", "Exception"),
        "NotImplementedError": ("RuntimeError", "Exception"), "UnboundLocalError": ("NameError", "Exception"), "ZeroDivisionError": ("ArithmeticError", "Exception"),
        "UnicodeDecodeError": ("UnicodeError", "ValueError", "Exception"),
        "gaierror": ("OSError", "IOError", "Exception"), "herror": ("OSError", "IOError", "Exception"), "binascii.Error": ("ValueError", "Exception"),
    }
    REQUESTS = ("requests.RequestException", "OSError", "IOError", "Exception")

    def exc_parents(self, exc, seen=()):
        if exc in self.EXC_PARENTS:
            return self.EXC_PARENTS[exc]
        if exc.startswith("requests."):
            more = {"JSONDecodeError": ("ValueError",), "ConnectTimeout": ("requests.Timeout", "requests.ConnectionError"), "ReadTimeout": ("requests.Timeout",),
                    "SSLError": ("requests.ConnectionError",), "ProxyError": ("requests.ConnectionError",)}
            return more.get(exc[9:], ()) + self.REQUESTS
        c = getattr(builtins, exc, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            ps = tuple(x.__name__ for x in c.__mro__[1:] if x not in (object, BaseException))
            return ps + (("IOError",) if "OSError" in ps else ())
        c = next((m.classes[exc] for m in self.repo.modules.values() if exc in m.classes), None)
        ps = []
        for b in c.node.bases if c is not None and exc not in seen else ():
            b = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else "Exception"
            ps += [b] + list(self.exc_parents(b, seen + (exc,)))
        return tuple(ps) or ("Exception",)

    def exc_matches(self, exc, types):
        if types is None:
            return True
        ps = (exc,) + self.exc_parents(exc) + ("BaseException",)
        return any(t in ps for t in types)

    def excname(self, n, st, fr):
        """name of the class of an exception"""
        last = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else "?"
        if last in getattr(fr, "caught", {}):
            return fr.caught[last]
        try:
            v = self.ev(n, st, fr)
        except Diverge:
            return last
        if isinstance(v, ClsV):
            return v.cls.name
        if isinstance(v, Ext):
            if v.name in ("socket.error", "socket.timeout"):
                return "OSError" if v.name.endswith("error") else "TimeoutError"
            if v.name.startswith(("requests.", "binascii.")):
                return v.name.split(".", 1)[0] + "." + v.name.rsplit(".", 1)[-1]
            return v.name.rsplit(".", 1)[-1]
        c = self.objcls(v) if isinstance(v, Ref) else None
        return c.name if c is not None else last

    def handler_types(self, h, st, fr):
        if h.type is None:
            return None
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in ns:
            out.append(self.excname(n, st, fr))
        return out

    @staticmethod
    def passes_on(h):
        """a handler that reports the exception at most, and raises it again"""
        last = h.body[-1]
        return isinstance(last, ast.Raise) and last.cause is None and (last.exc is None or isinstance(last.exc, ast.Name) and last.exc.id == h.name) \
            and all(isinstance(x, (ast.Expr, ast.Pass)) for x in h.body[:-1])

    def st_Try(self, s, st, fr):
        htypes = [self.handler_types(h, st, fr) for h in s.handlers]
        clear = [self.passes_on(h) for h in s.handlers]
        ctx = {"catches": lambda e: not next((p for t, p in zip(htypes, clear) if self.exc_matches(e, t)), True), "pend": []}
        if s.finalbody:
            ctx["fin"] = []
        pre = st.copy()
        self.try_stack.append(ctx)
        before, risky = self.opaque, self.risky
        try:
            body = self.exec_block(s.body, st, fr)
        finally:
            self.try_stack.pop()
        outs, exc = [], list(ctx["pend"])
        for o in body:
            if o[0] == "x":
                exc.append((o[1], o[2]))
            elif o[0] == "n":
                outs += self.exec_block(s.orelse, o[1], fr) if s.orelse else [o]
            else:
                outs.append(o)
        res = []
        late = []
        hit = set()
        guard = {"catches": lambda e: False, "pend": [], "fin": ctx.get("fin", [])}
        if s.finalbody:
            self.try_stack.append(guard)
        for stx, name in exc:
            for i, h in enumerate(s.handlers):
                if self.exc_matches(name, htypes[i]):
                    hit.add(i)
                    res += self._handler(h, stx, fr, name)
                    break
            else:
                outs.append(("x", stx, name))
        # handlers for exceptions of library code: analysed for their effects
        for i, h in enumerate(s.handlers):
            if i in hit or clear[i]:
                continue
            if self.opaque == before and (self.risky == risky or htypes[i] and all(t in LOOKUP_ERRORS for t in htypes[i])):
                continue   # every lookup of the body is decided, none of them fails
            c = X.bvar("exc@%s:%d:%d" % (fr.mod, s.lineno, i))
            self.excs.append(c)
            stx = pre.copy().assume(c, True)
            for o in outs:
                if o[0] == "n" and o[1] is not None:
                    pass
            outs2 = []
            for o in outs:
                o[1].assume(c, False) if o[0] in ("n", "r", "b", "c") else None
                outs2.append(o)
            # the assumption is appended last; put it right after the common prefix so that the merge is a plain gate
            for o in outs2 + res:
                g = o[1].guard
                if g and g[-1] == (c, False):
                    p = len(pre.guard)
                    o[1].guard = g[:p] + ((c, False),) + g[p:-1]
            outs = outs2
            for o in res:
                o[1].assume(c, False)
                g = o[1].guard
                if g[-1] == (c, False):
                    p = len(pre.guard)
                    o[1].guard = g[:p] + ((c, False),) + g[p:-1]
            res += self._handler(h, stx, fr, (htypes[i] or ["Exception"])[0], speculative=True)
        outs += res
        if s.finalbody:
            self.try_stack.pop()
        for stx, name, node in ctx.get("fin", ()):
            for q in self.exec_block(s.finalbody, stx, fr):
                if q[0] == "n":
                    self.pend(name, q[1], node)
                else:
                    late.append(q)
        if s.finalbody:
            fin = []
            for o in outs:
                for q in self.exec_block(s.finalbody, o[1], fr):
                    fin.append((o[0], q[1], o[2]) if q[0] == "n" else q)
            outs = fin + late
        return outs

    st_TryStar = st_Try

    def _handler(self, h, st, fr, name, speculative=False):
        if h.name:
            self.setname(h.name, Unk("exception object"), st, fr)
            fr.caught = dict(getattr(fr, "caught", {}), **{h.name: name})
        old = getattr(fr, "handling", None)
        fr.handling = name
        try:
            outs = self.exec_block(h.body, st, fr)
        finally:
            fr.handling = old
        return outs

    def st_Match(self, s, st, fr):
        self.unk("match statement", s)
        self.havoc(s, st, fr)
        return self.N(st)

    # -------------------------------------------------------------- calls
    def bind(self, fn, args, kw, st, node, fr_new):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        if fn.defaults is not None:
            dvals, kdv = fn.defaults
        else:
            dvals, kdv = None, None
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            else:
                extra.append(v)
        kwx = []
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                vals[k] = v
            else:
                kwx.append((k, v))
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            p = pos[len(pos) - nd + i]
            if p not in vals:
                vals[p] = dvals[i] if dvals is not None else self.default_value(fn, ("d", i), d, st)
        for i, (p, d) in enumerate(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg not in vals and d is not None:
                vals[p.arg] = kdv[i][0] if kdv is not None else self.default_value(fn, ("k", i), d, st)
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p not in vals:
                self.pend("TypeError", st, node)
                vals[p] = self.unk("missing argument %s of %s" % (p, fn.name), node)
        for p, v in vals.items():
            self.wr(st, ("L", fr_new.id, p), v)
        if a.vararg:
            self.wr(st, ("L", fr_new.id, a.vararg.arg), Tup(extra))
        elif extra:
            self.unk("too many arguments for %s" % fn.name, node)
        if a.kwarg:
            d = self.lib.mkdict(st, kwx)
            self.wr(st, ("L", fr_new.id, a.kwarg.arg), d)
        elif kwx:
            self.pend("TypeError", st, node)

    def default_value(self, fn, key, d, st):
        loc = ("D", id(fn.node), key)
        v = self._init.get(loc, UNDEF)
        if v is UNDEF:
            s = State()
            fr = Frame(fn.mod, fn.cls)
            try:
                v = self.ev(d, s, fr)
            except Diverge:
                v = self.unk("default value")
            for l, x in s.store.items():
                self._init.setdefault(l, x)
            self._init[loc] = v
        return v

    def call(self, f, args, kw, st, node=None):
        return self.split(f, st, lambda g, s: self._call(g, args, kw, s, node))

    def _call(self, f, args, kw, st, node):
        if isinstance(f, Unk):
            return f
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, st, node)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self_] + list(args), kw, st, node)
        if isinstance(f, FnV):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, ClsV):
            return self.instantiate(f.cls, args, kw, st, node)
        if isinstance(f, Ext):
            return self.lib.extcall(f.name, args, kw, st, node)
        if isinstance(f, BM):
            return self.lib.method(f.name, f.recv, args, kw, st, node)
        if isinstance(f, Interp1):
            return self.lib.interp_call(f, args, st, node)
        if isinstance(f, Ref):
            o = self.o(f)
            if o.kind in ("inst", "reg") and o.cls is not None:
                k, m = self.repo.find_method(o.cls, "__call__")
                if m is not None:
                    return self.call_fn(FnV(m, k.mod.name, k), [f] + list(args), kw, st, node)
            return self.lib.callobj(f, o, args, kw, st, node)
        if f is None:
            self.pend("TypeError", st, node)
            raise Diverge()
        return self.unk("call of %r" % (f,), node)

    def instantiate(self, cls, args, kw, st, node):
        # exceptions
        if any(isinstance(b, ast.Name) and b.id.endswith(("Error", "Exception")) for b in cls.node.bases):
            return Unk("exception object")
        for d in cls.node.keywords:
            if d.arg == "metaclass" and isinstance(d.value, ast.Name) and "Singleton" in d.value.id:
                loc = ("S", cls.mod.name, cls.name)
                v = self._init.get(loc)
                if v is None:
                    v = self.new("reg", cls=cls, path=cls.name, region=True)
                    self._init[loc] = v
                return v
        r = self.new("inst", cls=cls, site=self.site(node))
        self.wr(st, (r.oid, "born"), True)
        s = self.lib.intercept_class(cls, r, args, kw, st, node)
        if s is not UNDEF:
            return s
        k, m = self.repo.find_method(cls, "__init__")
        if m is not None:
            self.call_fn(FnV(m, k.mod.name, k), [r] + list(args), kw, st, node)
        return r

    def fn_locals(self, node):
        c = getattr(node, "_locals", None)
        if c is None:
            c = set()
            todo = list(node.body) if isinstance(node.body, list) else []
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    c.add(n.name)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        c.add(al.asname or al.name.split(".")[0])
                todo += list(ast.iter_child_nodes(n))
            node._locals = c
        return c

    def call_fn(self, fn, args, kw, st, node=None):
        qual = (fn.cls.name + "." if fn.cls else "") + fn.name
        s = self.lib.intercept_fn(fn, qual, args, kw, st, node)
        if s is not UNDEF:
            return s
        if sum(1 for c in self.call_stack if c[2:] and c[2] is fn.node) >= 6 or len(self.call_stack) > 60:
            return self.unk("recursion in %s" % qual, node)
        self.analysed.add("%s.%s" % (fn.mod, qual))
        self.calls.append((qual, self.site(node), list(args), dict(kw), st.guard, fn.mod))
        fr = Frame(fn.mod, fn.cls, fn.frame, fn)
        fr.locals = set(self.fn_locals(fn.node))
        line = self.cur_line
        self.call_stack.append((qual, fn.mod, fn.node))
        try:
            self.bind(fn, args, kw, st, node, fr)
            fr.self_ = args[0] if args else None
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, st, fr)
            gen = getattr(fn.node, "_gen", None)
            if gen is None:
                gen = fn.node._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node))
            if gen:
                fr.yields = self.lib.mklist(st, [])
            outs = self.exec_block(fn.node.body, st, fr)
            rets = []
            for o in outs:
                if o[0] == "n":
                    rets.append((o[1], None))
                elif o[0] == "r":
                    rets.append((o[1], o[2]))
                elif o[0] == "x":
                    if not self.pend(o[2], o[1], None):
                        pass
            if not rets:
                raise Diverge()
            s0, v0 = rets[0]
            if gen:
                rets = [(s, fr.yields) for s, _ in rets]
                s0, v0 = rets[0]
            for s1, v1 in rets[1:]:
                rl = ("L", fr.id, "<ret>")
                s0.store[rl], s1.store[rl] = v0, v1
                s0 = self.merge(s0, s1)
                v0 = s0.store.pop(rl)
            # drop the frame's locals unless a closure may need them
            if not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in fn.node.body for n in ast.walk(b)):
                for loc in [l for l in s0.store if l[0] == "L" and l[1] == fr.id]:
                    del s0.store[loc]
            st.become(s0)
            return v0
        finally:
            self.call_stack.pop()
            self.cur_line = line

    # -------------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return self.unk("expression %s" % type(n).__name__, n)
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, (bool, int, float)):
            return Num(X.K(v))
        if isinstance(v, str) or v is None:
            return v
        if v is Ellipsis:
            return Ext("builtins.Ellipsis")
        if isinstance(v, bytes):
            return StrV(("bytes", v))
        return self.unk("constant %r" % (v,), n)

    def ev_Name(self, n, st, fr):
        return self.name(n.id, st, fr, n)

    def ev_Attribute(self, n, st, fr):
        return self.getattr(self.ev(n.value, st, fr), n.attr, st, n)

    def ev_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        k = self.ev(n.slice, st, fr)
        return self.getitem(o, k, st, n)

    def ev_Slice(self, n, st, fr):
        f = lambda x: None if x is None else self.ev(x, st, fr)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def ev_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def ev_Tuple(self, n, st, fr):
        return Tup(self.seq(n.elts, st, fr))

    def ev_List(self, n, st, fr):
        return self.lib.mklist(st, self.seq(n.elts, st, fr))

    def ev_Set(self, n, st, fr):
        return self.lib.mklist(st, self.seq(n.elts, st, fr), kind="set")

    def seq(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                its = self.iterate(v, st, e)
                if its is None:
                    out.append(self.unk("star", e))
                else:
                    out += [x for x, c in its]
            else:
                out.append(self.ev(e, st, fr))
        return out

    def ev_Dict(self, n, st, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, st, fr)
                ents = self.lib.dict_entries(src, st)
                if ents is None:
                    return self.unk("dict unpack", n)
                for kk, c in ents:
                    items.append((kk, self.lib.getitem(src, kk, st, n)))
            else:
                items.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        return self.lib.mkdict(st, items)

    def ev_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.lib.tostr(self.ev(v.value, st, fr), st))
        return self.lib.joinparts(parts)

    def ev_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.lib.binop(type(n.op).__name__, a, b, st, n)

    def ev_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return Num(X.NOT(self.simp(self.truth(v, st, n), st)))
        if isinstance(n.op, ast.USub):
            x = self.num(v, st)
            if x is None:
                return self.unk("negation", n)
            return self.fresh(st, x.but(e=X.neg(x.e), size=None))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            x = self.num(v, st)
            if x is not None and x.e.isb:
                return self.fresh(st, x.but(e=X.NOT(x.e)))
        return self.unk("unary operator", n)

    def ev_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        return self._boolop(n.values, isand, st, fr)

    def _boolop(self, vals, isand, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        c = self.simp(self.truth(v, st), st)
        if c.op == "k":
            if bool(c.args[0]) == isand:
                return self._boolop(vals[1:], isand, st, fr)
            return v
        s2 = st.copy().assume(c, isand)
        s1 = st.copy().assume(c, not isand)
        try:
            w = self._boolop(vals[1:], isand, s2, fr)
        except Diverge:
            st.become(s1)
            return v
        st.become(self.merge(s2, s1))
        if isinstance(w, Num) and w.e.isb and isinstance(v, (Num, Ref)) and (not isinstance(v, Num) or v.e.isb):
            return Num(X.AND(c, w.e) if isand else X.OR(c, w.e))
        if isand:
            # v is falsy or the result is w
            vv = v if not (isinstance(v, Num) and v.e.isb) else Num(X.FALSE)
            return self.mkphi(c, w, vv)
        vv = v if not (isinstance(v, Num) and v.e.isb) else Num(X.TRUE)
        return self.mkphi(c, vv, w)

    def ev_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st, fr)
            r = self.lib.compare(type(op).__name__, left, right, st, n)
            if res is None:
                res = r
            else:
                a, b = self.num(res, st), self.num(r, st)
                if a is None or b is None:
                    return self.unk("chained comparison", n)
                res = Num(X.AND(a.e, b.e))
            left = right
        return res

    def ev_IfExp(self, n, st, fr):
        c = self.simp(self.truth(self.ev(n.test, st, fr), st, n), st)
        if c.op == "k":
            return self.ev(n.body if c.args[0] else n.orelse, st, fr)
        sa, sb = st.copy().assume(c, True), st.copy().assume(c, False)
        a = b = UNDEF
        da = db = False
        try:
            a = self.ev(n.body, sa, fr)
        except Diverge:
            da = True
        try:
            b = self.ev(n.orelse, sb, fr)
        except Diverge:
            db = True
        if da and db:
            raise Diverge()
        if da:
            st.become(sb)
            return b
        if db:
            st.become(sa)
            return a
        st.become(self.merge(sa, sb))
        return self.mkphi(c, a, b)

    def ev_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def ev_Lambda(self, n, st, fr):
        return FnV(n, fr.mod, fr.cls, fr, name="<lambda>", defaults=self.defaults(n, st, fr))

    def ev_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def ev_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if n.args:
                c = self.ev(n.args[0], st, fr)
                return SuperV(c.cls if isinstance(c, ClsV) else fr.cls, self.ev(n.args[1], st, fr))
            f = fr
            while f.parent is not None and f.cls is None:
                f = f.parent
            return SuperV(f.cls, f.self_)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            return self.unk("locals()", n)
        f = self.ev(n.func, st, fr)
        args = self.seq(n.args, st, fr)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                ents = self.lib.dict_entries(v, st)
                if ents is None:
                    return self.unk("keyword unpack", n)
                for kk, c in ents:
                    kw[kk] = self.lib.getitem(v, kk, st, n)
            else:
                kw[k.arg] = v
        line = self.cur_line
        self.cur_line = n.lineno
        try:
            return self.call(f, args, kw, st, n)
        finally:
            self.cur_line = line

    def comp(self, n, st, fr, elt):
        """generic comprehension: list of (value, cond)"""
        f2 = Frame(fr.mod, fr.cls, fr, None)
        f2.self_ = fr.self_
        f2.fn = None
        out = []

        def rec(i, s, cond):
            """executes generators from i on; mutates s; returns False when unknown"""
            if i == len(n.generators):
                out.append((elt(s, f2), cond))
                return True
            g = n.generators[i]
            itv = self.ev(g.iter, s, f2)
            its = self.iterate(itv, s, n)
            if its is None:
                return False
            for v, c in its:
                c = self.simp(c, s)
                if c is X.FALSE:
                    continue
                self.assign(g.target, v, s, f2)
                cc = c
                for test in g.ifs:
                    s_ = s if cc is X.TRUE else s
                    t = self.simp(self.truth(self.ev(test, s_, f2), s_), s_)
                    cc = X.AND(cc, t)
                    if cc is X.FALSE:
                        break
                if cc is X.FALSE:
                    continue
                if cc is not X.TRUE:
                    s2 = s.copy().assume(cc, True)
                    s3 = s.copy().assume(cc, False)
                    if not rec(i + 1, s2, X.AND(cond, cc)):
                        return False
                    s.become(self.merge(s2, s3))
                else:
                    if not rec(i + 1, s, cond):
                        return False
            return True

        if not rec(0, st, X.TRUE):
            return None
        return out

    def ev_ListComp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda s, f: self.pin(self.ev(n.elt, s, f), s))
        if r is None:
            return self.unk("comprehension over an unknown collection", n)
        return self.lib.mklist(st, r, conds=True)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda s, f: self.pin(self.ev(n.elt, s, f), s))
        if r is None:
            return self.unk("comprehension over an unknown collection", n)
        return self.lib.mklist(st, r, conds=True, kind="set")

    def ev_DictComp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda s, f: (self.pin(self.ev(n.key, s, f), s), self.pin(self.ev(n.value, s, f), s)))
        if r is None:
            return self.unk("comprehension over an unknown collection", n)
        return self.lib.mkdict(st, [(k, v) for (k, v), c in r], [c for _, c in r])

    def ev_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else None
        if fr.yields is not None:
            self.lib.method("append", fr.yields, [v], {}, st, n)
        return None

    def ev_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if fr.yields is not None:
            self.lib.method("extend", fr.yields, [v], {}, st, n)
        return None

    def ev_FormattedValue(self, n, st, fr):
        return self.lib.tostr(self.ev(n.value, st, fr), st)

    def ev_Await(self, n, st, fr):
        return self.unk("await", n)


class _Deleted(V):
    def __repr__(self):
        return "DELETED"


DELETED = _Deleted()
