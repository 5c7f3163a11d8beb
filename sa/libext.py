"""External functions: numpy, astropy, scipy and Python's built-ins."""
import ast
import builtins
import math

import re
from . import expr as X
from .libnp import LibNp


_accepted = {}
HARMLESS = {"dtype", "copy", "order", "subok", "a", "x", "x1", "x2", "arr", "arrays", "casting", "ary", "tup", "m", "condition"}


def accepted(f):
    """the keyword arguments that the model of a numpy function takes into account"""
    if f not in _accepted:
        import inspect
        seen, todo = set(), [f]
        names = set(HARMLESS)
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            src = inspect.getsource(g)
            names |= set(re.findall(r'"(\w+)"', src))
            for h in re.findall(r"self\.(_\w+|np_\w+)\(", src):
                k = getattr(LibExt, h, None)
                if k is not None and h not in ("_call",):
                    todo.append(k)
        _accepted[f] = names
    return _accepted[f]


class LibExt(LibNp):
    IGNORED = ("logging.", "warnings.", "matplotlib.", "gc.", "time.", "sys.stdout", "sys.stderr", "traceback.", "pprint.", "atexit.")

    def extcall(self, name, args, kw, st, node):
        from .interp import Phi, Ref, Num
        I = self.I
        I.calls.append((name, I.site(node), list(args), dict(kw), st.guard, None))
        if not (name in ("builtins.int", "builtins.float", "builtins.list", "builtins.dict", "builtins.str", "builtins.len", "builtins.isinstance", "builtins.range") and all(isinstance(x, (str, Ref, Num)) for x in args)
                or name.endswith(".Unit") and args and isinstance(args[0], str)):
            I.risky += 1
        h = I.stubs.get("ext:" + name)
        if h is not None:
            return h(self, name, args, kw, st, node)
        if name.startswith("builtins."):
            f = getattr(self, "b_" + name[9:].replace(".", "_"), None)
            if f is not None:
                return f(args, kw, st, node)
            if name[9:].endswith(("Error", "Exception", "Exit", "Interrupt", "Warning")):
                from .interp import Unk
                return Unk("exception object")
            return I.unk("built-in " + name[9:], node)
        if name.startswith("numpy.") and not name.startswith("numpy.random"):
            f = getattr(self, "np_" + name[6:].replace(".", "_"), None)
            if kw.get("out") is not None:
                # the result is written into an existing array
                out = kw["out"]
                r = self.N(f(args, {k: v for k, v in kw.items() if k not in ("out", "where")}, st, node), st) if f is not None else None
                if r is None or not isinstance(out, Ref) or I.o(out).kind != "num":
                    return I.unk("in-place call of " + name, node)
                old = self.N(out, st)
                if kw.get("where") is not None and self.key(kw["where"]) is not True:
                    m = self.N(kw["where"], st)
                    if m is None or not m.e.isb or old is None or old.unit is not r.unit and old.isq is not r.isq:
                        return I.unk("in-place call of " + name, node)
                    e, g = self.elementwise(X.ite(m.e, r.e, old.e), r, old, m)
                    r = r.but(e=e, grid=g)
                I.effect("mutate", out, "out=", st, node)
                I.wr(st, (out.oid, "num"), r.but(isq=old.isq, unit=old.unit) if old is not None and old.isq is False else r)
                return out
            if kw.get("where") is not None:
                m = self.N(kw["where"], st)
                if f is None or m is None or name[6:] not in ("sum", "mean", "max", "min", "any", "all", "amax", "amin", "prod", "std") or kw.get("axis") is not None or len(args) > 1:
                    return I.unk("where= of " + name, node)
                x = self.N(args[0], st)
                return f([self.numitem(x, m, st, node)], {k: v for k, v in kw.items() if k not in ("where", "initial")}, st, node) if x is not None else I.unk("where= of " + name, node)
            if f is not None:
                for q in kw:
                    if q not in accepted(f.__func__):
                        return I.unk("keyword %s of %s" % (q, name), node)
                return f(args, kw, st, node)
            return I.unk(name, node)
        key = "x_" + name.replace(".", "_")
        f = getattr(self, key, None)
        if f is not None:
            return f(args, kw, st, node)
        if name.startswith(self.IGNORED):
            return I.new("reg", path="%s()" % name, hint={"open": True})
        if name.startswith("os.path."):
            return self.ospath(name[8:], args, kw, st, node)
        if name.startswith("os.environ"):
            return I.new("reg", path="%s(%s)" % (name, ",".join(map(repr, args))))
        short = name.rsplit(".", 1)[-1]
        for suf, h in self.SUFFIX.items():
            if name.endswith(suf):
                return getattr(self, h)(args, kw, st, node)
        if short[:1].isupper() and short.endswith(("Error", "Exception")):
            from .interp import Unk
            return Unk("exception object")
        return I.unk("call of " + name, node)

    SUFFIX = {
        "mpmath.ellippi": "q_ellippi", "stats.binned_statistic": "q_binned",
        "units.Quantity": "q_Quantity", "units.Unit": "q_Unit", "table.QTable": "q_table", "table.Table": "q_table",
        "table.hstack": "q_hstack", "table.vstack": "q_vstack", "interpolate.interp1d": "q_interp1d", "copy.deepcopy": "q_deepcopy", "copy.copy": "q_copy",
        "collections.OrderedDict": "b_odict", "functools.partial": "q_partial", "functools.lru_cache": "q_identity", "functools.wraps": "q_identity",
        "itertools.repeat": "q_repeat", "itertools.chain": "q_chain", "ascii.read": "q_read", "table.Column": "q_column", "table.MaskedColumn": "q_column",
        "units.quantity_input": "q_identity", "integrate.trapezoid": "np_trapz", "integrate.trapz": "np_trapz", "itertools.product": "q_product",
        "collections.defaultdict": "q_ddict", "math.sqrt": "np_sqrt", "math.radians": "np_radians", "math.cos": "np_cos", "math.sin": "np_sin", "math.exp": "np_exp", "math.log": "np_log", "math.log10": "np_log10", "math.ceil": "np_ceil",
        "math.floor": "np_floor", "math.isnan": "np_isnan", "math.fabs": "np_abs", "math.modf": "np_modf", "math.pow": "q_pow", "operator.mul": "q_mul", "operator.add": "q_add",
        "coordinates.angular_separation": "q_separation", "angle_utilities.angular_separation": "q_separation", "functools.reduce": "q_reduce", "integrate.cumulative_trapezoid": "q_cumtrapz", "types.SimpleNamespace": "q_ns", "math.prod": "np_prod", "operator.itemgetter": "q_opaque",
    }

    # ------------------------------------------------------------ the installed package
    def x_importlib_metadata_version(self, args, kw, st, node):
        from .interp import StrV
        return StrV(("version", repr(args[0])))

    def x_importlib_metadata_metadata(self, args, kw, st, node):
        from .interp import StrV
        r = self.mkdict(st, [])
        for k in ("Name", "Project-URL", "Author", "license", "Summary", "Version"):
            self.dset(r, k, StrV(("metadata", k)), st)
        return r

    # ------------------------------------------------------------ generic
    def q_opaque(self, args, kw, st, node):
        return self.I.unk("opaque call", node)

    def q_ellippi(self, args, kw, st, node):
        from .interp import Num
        ns = [self.N(a, st) for a in args]
        if len(ns) != 2 or any(n is None for n in ns):
            return self.I.unk("ellippi", node)
        return self.I.fresh(st, Num(X.opq("ellippi", *[self.raw(n) for n in ns]), None, False))

    def q_binned(self, args, kw, st, node):
        """mean of the samples falling in each bin (the last one closed)"""
        from .interp import Num, Tup
        I = self.I
        x, y = self.N(args[0], st), self.N(args[1], st)
        b = self.N(self.arg(args, kw, 3, "bins"), st)
        stat = self.arg(args, kw, 2, "statistic", "mean")
        r = I.unk("binned_statistic", node)
        if isinstance(stat, str) and None not in (x, y, b):
            xr, yr, br = self.raw(x), self.raw(y), self.raw(b)
            if None not in (xr.rows, yr.rows, br.rows) and xr.rows == yr.rows and not (xr.wl or yr.wl or br.wl):
                r = I.cell(st, Num(X.binmeans(xr, yr, br) if stat == "mean" else X.mul(X.binmeans(xr, yr, br), X.opq("binned " + stat, X.el(br, 0))), None, False))
        return Tup([r, None, None])

    def q_ns(self, args, kw, st, node):
        I = self.I
        r = I.new("inst", cls=None)
        I.wr(st, (r.oid, "born"), True)
        for k, v in kw.items():
            I.wr(st, (r.oid, "attr", k), v)
        return r

    def q_identity(self, args, kw, st, node):
        if args:
            return args[0]
        from .interp import Ext
        return Ext("verif.identity")

    def _re(self, f, args, kw, st, node):
        """match of a known text against a known pattern"""
        from .interp import Phi
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return self.I.split(a, st, lambda x, s: self._re(f, list(args[:i]) + [x] + list(args[i + 1:]), kw, s, node))
        if len(args) == 2 and all(isinstance(a, str) for a in args) and not kw:
            try:
                m = getattr(re, f)(*args)
            except re.error:
                return self.I.unk("regular expression", node)
            return None if m is None else self.I.new("reg", path="match(%r,%r)" % tuple(args), hint={"truth": True, "open": True})
        return self.I.new("reg", path="re.%s(%s)" % (f, ",".join(repr(self.tostr(a, st)) for a in args)), hint={"open": True})

    def x_re_search(self, args, kw, st, node):
        return self._re("search", args, kw, st, node)

    def x_re_match(self, args, kw, st, node):
        return self._re("match", args, kw, st, node)

    def x_re_fullmatch(self, args, kw, st, node):
        return self._re("fullmatch", args, kw, st, node)

    def x_re_escape(self, args, kw, st, node):
        return re.escape(args[0]) if isinstance(args[0], str) else self.tostr(args[0], st)

    def x_verif_identity(self, args, kw, st, node):
        return args[0]

    def q_pow(self, args, kw, st, node):
        return self.binop("Pow", args[0], args[1], st, node)

    def q_mul(self, args, kw, st, node):
        return self.binop("Mult", args[0], args[1], st, node)

    def q_add(self, args, kw, st, node):
        return self.binop("Add", args[0], args[1], st, node)

    def q_reduce(self, args, kw, st, node):
        I = self.I
        its = self.iterate(args[1], st, node)
        if its is None or any(c is not X.TRUE for _, c in its):
            return I.unk("reduce", node)
        its = [x for x, _ in its]
        acc = args[2] if len(args) > 2 else its.pop(0)
        for x in its:
            acc = I.call(args[0], [acc, x], {}, st, node)
        return acc

    def q_partial(self, args, kw, st, node):
        from .interp import PartialV
        return PartialV(args[0], list(args[1:]), dict(kw))

    def q_deepcopy(self, args, kw, st, node):
        return self.copyval(args[0], st, st, True)

    def q_copy(self, args, kw, st, node):
        return self.copyval(args[0], st, st, False)

    def q_repeat(self, args, kw, st, node):
        from .lib import RepV
        return RepV(args[0], None)

    def q_chain(self, args, kw, st, node):
        out = []
        for a in args:
            its = self.iterate(a, st, node)
            if its is None:
                return self.I.unk("chain", node)
            out += its
        return self.mklist(st, out, conds=True)

    def q_product(self, args, kw, st, node):
        from .interp import Tup
        outs = [([], X.TRUE)]
        for a in args:
            its = self.iterate(a, st, node)
            if its is None:
                return self.I.unk("product", node)
            outs = [(p + [x], X.AND(c, d)) for p, c in outs for x, d in its]
        return self.mklist(st, [(Tup(p), c) for p, c in outs], conds=True)

    def q_ddict(self, args, kw, st, node):
        return self.I.unk("defaultdict", node)

    def b_odict(self, args, kw, st, node):
        r = self.b_dict(args, kw, st, node)
        from .interp import Ref
        if isinstance(r, Ref) and self.I.o(r).kind == "dict":
            self.I.o(r).cls = "OrderedDict"
        return r

    def q_read(self, args, kw, st, node):
        a = args[0] if args else None
        s = self.tostr(a, st)
        return self.I.new("reg", path="read(%s)" % (s if isinstance(s, str) else repr(s.parts)), hint=self.I.hint_fn("read()") or {}, region=False)

    def ospath(self, m, args, kw, st, node):
        from .interp import StrV, Num, Phi
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return self.I.split(a, st, lambda x, s: self.ospath(m, list(args[:i]) + [x] + list(args[i + 1:]), kw, s, node))
        from .interp import Ref, Diverge
        if m != "join" and args and (args[0] is None or isinstance(args[0], Ref) and self.I.o(args[0]).kind in ("table", "list", "dict")):
            self.I.pend("TypeError", st, node)
            raise Diverge()
        if m in ("basename", "dirname", "splitext") and isinstance(args[0], str):
            import posixpath
            return self.lift(getattr(posixpath, m)(args[0]), st)
        if m in ("exists", "isfile", "isdir", "isabs", "samefile", "islink"):
            return Num(X.bvar("os.%s(%s)" % (m, ",".join(repr(self.tostr(a, st)) for a in args))))
        if m == "join":
            parts = []
            for i, a in enumerate(args):
                if i:
                    parts.append("/")
                parts.append(self.tostr(a, st))
            return self.joinparts(parts)
        if m in ("expanduser", "abspath", "realpath", "normpath"):
            return self.tostr(args[0], st)
        return StrV(("os.path." + m,) + tuple(repr(self.tostr(a, st)) for a in args)) if m != "splitext" else self.I.new("reg", path="splitext(%r)" % (self.tostr(args[0], st),))

    def interp_call(self, f, args, st, node):
        return self.interp_eval(f, args[0], st, node)

    def callobj(self, ref, o, args, kw, st, node):
        if (o.path or "").startswith(self.IGNORED):
            return None
        if (o.path or "").endswith(".field") and len(args) == 1 and isinstance(self.key(args[0]), str):
            return self.I.region("%s[%s]" % (o.path[:-6], self.key(args[0])))
        return self.I.unk("call of %s" % (o.path or o.kind), node)

    # ------------------------------------------------------------ interception
    def intercept_class(self, cls, ref, args, kw, st, node):
        from .interp import UNDEF
        return UNDEF

    STUBS = {}

    def intercept_fn(self, fn, qual, args, kw, st, node):
        from .interp import UNDEF
        if fn.mod.startswith("exorad.log"):
            if fn.cls is not None and fn.name != "__init__" and not self.I.stubs.get("with:log"):
                return None
        h = self.I.stubs.get(qual) or self.I.stubs.get(fn.name if fn.cls is None else "")
        if h is not None:
            return h(self, fn, args, kw, st, node)
        return UNDEF
