"""numpy, scipy and astropy functions."""
from . import expr as X
from .libbi import LibBi
from .units import parse_unit, no_unit



def _dimless(u):
    from .units import dims
    d = dims(u) if u is not None else {}
    return d is not None and all(abs(x) < 1e-9 for x in d.values())


class LibNp(LibBi):
    # ------------------------------------------------------------ elementwise functions
    def fn1(self, name, args, st, node, unit="raw"):
        I = self.I
        n = self.N(args[0], st)
        if n is None:
            return I.unk("np.%s of %r" % (name, args[0]), node)
        if unit == "same":
            u = self.uu(n)
            return I.fresh(st, n.but(e=X.mul(X.fn(name, self.raw(n)), u) if n.isq is not False else X.fn(name, n.e), size=None))
        if unit == "sqrt":
            return I.fresh(st, n.but(e=X.pw(n.e, X.K(0.5)), unit=X.pw(n.unit, X.K(0.5)) if n.unit is not None else None, size=None))
        if unit == "square":
            return I.fresh(st, n.but(e=X.pw(n.e, X.K(2)), unit=X.pw(n.unit, X.K(2)) if n.unit is not None else None, size=None))
        # functions of dimensionless arguments
        return I.fresh(st, n.but(e=X.fn(name, n.e), unit=X.ONE if n.isq else None, isq=n.isq, size=None))

    def np_sqrt(self, a, k, st, n):
        return self.fn1("sqrt", a, st, n, "sqrt")

    def np_square(self, a, k, st, n):
        return self.fn1("square", a, st, n, "square")

    def np_exp(self, a, k, st, n):
        return self.fn1("exp", a, st, n)

    def np_expm1(self, a, k, st, n):
        return self.fn1("expm1", a, st, n)

    def np_log(self, a, k, st, n):
        return self.fn1("log", a, st, n)

    def np_log10(self, a, k, st, n):
        return self.fn1("log10", a, st, n)

    def np_log2(self, a, k, st, n):
        return self.fn1("log2", a, st, n)

    def angle(self, n):
        """an angle as a plain number of radians"""
        return X.div(n.e, X.atom("unit:rad")) if n.isq is not False and n.unit is not None else n.e

    def trig(self, name, a, st, node):
        n = self.N(a[0], st)
        if n is None:
            return self.I.unk("np.%s of %r" % (name, a[0]), node)
        return self.I.fresh(st, n.but(e=X.fn(name, self.angle(n)), unit=X.ONE if n.isq else None, isq=n.isq, size=None))

    def np_sin(self, a, k, st, n):
        return self.trig("sin", a, st, n)

    def np_cos(self, a, k, st, n):
        return self.trig("cos", a, st, n)

    def np_tan(self, a, k, st, n):
        return self.trig("tan", a, st, n)

    def inverse(self, name, a, st, node):
        r = self.fn1(name, a, st, node)
        m = self.N(r, st)
        if m is not None and m.isq:
            return self.I.fresh(st, m.but(e=X.mul(m.e, X.atom("unit:rad")), unit=X.atom("unit:rad")))
        return r

    def np_arctan(self, a, k, st, n):
        return self.inverse("arctan", a, st, n)

    def np_arcsin(self, a, k, st, n):
        return self.inverse("arcsin", a, st, n)

    def np_arccos(self, a, k, st, n):
        return self.inverse("arccos", a, st, n)

    def np_radians(self, a, k, st, n):
        x = self.N(a[0], st)
        if x is None:
            return self.I.unk("radians", n)
        if x.isq is not False and x.unit is not None:
            return self.I.fresh(st, x.but(unit=X.atom("unit:rad"), size=None))
        return self.I.fresh(st, x.but(e=X.mul(x.e, X.K(0.017453292519943295)), size=None))

    np_deg2rad = np_radians

    def q_separation(self, a, k, st, n):
        """angle on the sky between two directions"""
        x = [self.N(v, st) for v in a]
        if len(x) != 4 or None in x:
            return self.I.unk("angular separation", n)
        g, mixed = self.joingrid(*x)
        (l1, b1), (l2, b2) = ((self.angle(x[0]), self.angle(x[1])), (self.angle(x[2]), self.angle(x[3])))
        f = X.fn
        e = X.add(X.mul(f("sin", b1), f("sin", b2)), X.mul(X.mul(f("cos", b1), f("cos", b2)), f("cos", X.sub(l1, l2))))
        e = f("arccos", e)
        q = any(v.isq is not False for v in x)
        return self.I.fresh(st, Num(X.mul(e, X.atom("unit:rad")) if q else e, X.atom("unit:rad") if q else None, q, g))

    def np_abs(self, a, k, st, n):
        return self.fn1("abs", a, st, n, "same")

    np_absolute = np_abs
    np_fabs = np_abs

    def np_ceil(self, a, k, st, n):
        return self.fn1("ceil", a, st, n, "same")

    def np_floor(self, a, k, st, n):
        return self.fn1("floor", a, st, n, "same")

    def np_trunc(self, a, k, st, n):
        return self.fn1("trunc", a, st, n, "same")

    def np_round(self, a, k, st, n):
        d = a[1] if len(a) > 1 else k.get("decimals", 0)
        d = d if isinstance(d, int) else self.N(d, st)
        d = d if d is None or isinstance(d, int) else (X.const(d.e) or [None])[0]
        d = int(d) if d is not None and d == int(d) else None
        if len(a) > 2 or set(k) - {"decimals"} or d is None or abs(d) > 15:
            return self.I.unk("rounding to decimals", n)
        if d == 0:
            return self.fn1("round", a[:1], st, n, "same")
        v = self.N(a[0], st)
        if v is None:
            return self.I.unk("np.round of %r" % (a[0],), n)
        f = X.K(10.0 ** d)
        cut = lambda e: X.div(X.fn("round", X.mul(e, f)), f)
        return self.I.fresh(st, v.but(e=X.mul(cut(self.raw(v)), self.uu(v)) if v.isq is not False else cut(v.e), size=None))

    np_rint = np_round
    np_around = np_round

    def np_isnan(self, a, k, st, n):
        I = self.I
        x = self.N(a[0], st)
        if x is None:
            return I.unk("isnan", n)
        e = X.mk("fn:isnan", x.e, rows=x.e.rows, wl=x.e.wl, isb=True)
        return I.fresh(st, x.but(e=e, unit=None, isq=False, size=None))

    def np_isfinite(self, a, k, st, n):
        I = self.I
        x = self.N(a[0], st)
        e = X.mk("fn:isfinite", x.e, rows=x.e.rows, wl=x.e.wl, isb=True)
        return I.fresh(st, x.but(e=e, unit=None, isq=False, size=None))

    def np_modf(self, a, k, st, n):
        from .interp import Tup
        x = self.N(a[0], st)
        if x is None:
            return self.I.unk("modf", n)
        ip = X.fn("trunc", x.e)
        return Tup([x.but(e=X.sub(x.e, ip), size=None), x.but(e=ip, size=None)])

    def np_nan_to_num(self, a, k, st, n):
        z = self.arg(a, k, 2, "nan")
        if (z is not None and self.key(z) != 0) or k.get("copy") is False or "posinf" in k or "neginf" in k:
            return self.I.unk("nan_to_num", n)
        return self.fn1("nan0", a, st, n, "same")

    def _bin(self, op, a, st, n):
        return self.binop(op, a[0], a[1], st, n)

    def np_multiply(self, a, k, st, n):
        return self._bin("Mult", a, st, n)

    def np_add(self, a, k, st, n):
        return self._bin("Add", a, st, n)

    def np_subtract(self, a, k, st, n):
        return self._bin("Sub", a, st, n)

    def np_divide(self, a, k, st, n):
        return self._bin("Div", a, st, n)

    np_true_divide = np_divide

    def np_power(self, a, k, st, n):
        return self._bin("Pow", a, st, n)

    def np_isclose(self, a, k, st, n):
        x, y = self.N(a[0], st), self.N(a[1], st)
        if x is None or y is None or x.unit is not y.unit:
            return self.I.unk("isclose", n)
        t = {q: (k[q] if q in k else a[i] if len(a) > i else d) for i, q, d in ((2, "rtol", 1e-5), (3, "atol", 1e-8))}
        t = {q: v if isinstance(v, float) else getattr(self.key(self.N(v, st)), "real", None) for q, v in t.items()}
        if None in t.values():
            return self.I.unk("isclose", n)
        g, mixed = self.joingrid(x, y)
        if mixed:
            e, g = self.elementwise(X.cmp("eq", x.e, y.e), x, y)
        else:
            ab = lambda e: X.ite(X.cmp("lt", e, X.ZERO), X.neg(e), e)
            e = X.cmp("le", ab(X.sub(x.e, y.e)), X.add(X.K(t["atol"]), X.mul(X.K(t["rtol"]), ab(y.e))))
        r = Num(e, None, False, g)
        return self.I.fresh(st, r) if (e.rows or e.wl) else r

    def np_allclose(self, a, k, st, n):
        from .interp import Unk
        r = self.np_isclose(a, k, st, n)
        return r if isinstance(r, Unk) else self.np_all([r], {}, st, n)

    def np_array_equal(self, a, k, st, n):
        x, y = self.N(a[0], st), self.N(a[1], st)
        if x is None or y is None or x.unit is not y.unit:
            return self.I.unk("array_equal", n)
        e, g = self.elementwise(X.cmp("eq", x.e, y.e), x, y)
        r = Num(e, None, False, g)
        return self.np_all([self.I.fresh(st, r) if (e.rows or e.wl) else r], {}, st, n)

    np_array_equiv = np_array_equal

    def np_hypot(self, a, k, st, n):
        x, y = self.N(a[0], st), self.N(a[1], st)
        e = X.pw(X.add(X.pw(x.e, X.K(2)), X.pw(y.e, X.K(2))), X.K(0.5))
        e, g = self.elementwise(e, x, y)
        return self.I.fresh(st, x.but(e=e, grid=g, size=None))

    def _mm(self, kind, a, st, n):
        x, y = self.N(a[0], st), self.N(a[1], st)
        if x is None or y is None:
            return self.I.unk(kind, n)
        c = X.cmp("lt", x.e, y.e)
        r = self.I.itenum(c, y, x) if kind == "max" else self.I.itenum(c, x, y)
        e, g = self.elementwise(r.e, x, y)
        return self.I.fresh(st, r.but(e=e, grid=g, size=None))

    def np_maximum(self, a, k, st, n):
        return self._mm("max", a, st, n)

    def np_clip(self, a, k, st, n):
        r = self.arg(a, k, 0, "a")
        lo = self.arg(a, k, 1, "a_min", k.get("min"))
        hi = self.arg(a, k, 2, "a_max", k.get("max"))
        if lo is not None:
            r = self._mm("max", [r, lo], st, n)
        if hi is not None:
            r = self._mm("min", [r, hi], st, n)
        return r

    def np_repeat(self, a, k, st, n):
        from .interp import Num
        w = self.N(self.arg(a, k, 0, "a"), st)
        if w is None or w.e.rows is not None or w.e.wl or self.arg(a, k, 2, "axis") is not None:
            return self.I.unk("numpy.repeat", n)
        r = self._shape_full(self.arg(a, k, 1, "repeats"), w.e, st, n)
        m = self.N(r, st)
        return self.I.cell(st, m.but(unit=w.unit, isq=w.isq)) if m is not None else r

    def np_minimum(self, a, k, st, n):
        return self._mm("min", a, st, n)

    def _logic(self, op, a, st, n):
        return self.binop(op, a[0], a[1], st, n)

    def np_logical_and(self, a, k, st, n):
        return self._logic("BitAnd", a, st, n)

    def np_logical_or(self, a, k, st, n):
        return self._logic("BitOr", a, st, n)

    def np_logical_not(self, a, k, st, n):
        x = self.N(a[0], st)
        return self.I.fresh(st, x.but(e=X.NOT(x.e))) if x is not None and x.e.isb else self.I.unk("logical_not", n)

    np_invert = np_logical_not

    # ------------------------------------------------------------ construction
    def _float(self, v):
        return v

    def np_float64(self, a, k, st, n):
        return self.b_float(a, k, st, n)

    def np_float32(self, a, k, st, n):
        r = self.b_float(a, k, st, n)
        x = self.N(r, st)
        return r if x is None else self.narrowed(x, "float32")

    np_single = np_float16 = np_half = np_float32

    def np_array(self, a, k, st, n):
        """plain array: the unit is dropped"""
        from .interp import Num, Ref, Phi, Tup, Diverge
        from .lib import StrCol, RepV
        I = self.I
        v = a[0]
        if isinstance(v, Phi) and self.N(v, st) is None:
            return I.split(v, st, lambda x, s: self.np_array([x] + list(a[1:]), k, s, n))
        if isinstance(v, (StrCol, RepV)):
            return v
        its = None
        if isinstance(v, Tup):
            its = [(x, X.TRUE) for x in v.items]
        elif isinstance(v, Ref) and I.o(v).kind == "list":
            its = I.rd(st, (v.oid, "items"), ())
        if its is not None:
            if its and all(isinstance(x, str) for x, _ in its) and all(c is X.TRUE for _, c in its):
                return StrCol([x for x, _ in its])
            if not its:
                return v
            if all(c is X.TRUE and isinstance(x, Ref) and I.o(x).kind in ("dict", "inst") for x, c in its):
                return StrCol([x for x, _ in its])   # an array of objects
            for x, c in its:
                q = self.N(x, st) if c is X.TRUE and not isinstance(x, (Phi, str)) else None
                if q is not None and q.isq is True and q.unit is not None and q.unit is not X.ONE and q.e.rows is None and not q.e.wl:
                    I.pend("TypeError", st, n)   # only numbers without a unit fit in an array
                    raise Diverge()
        x = self.N(v, st)
        if x is None:
            return I.unk("np.array of %r" % (v,), n)
        if x.isq is True or x.isq == "col":
            return I.cell(st, x.but(e=self.raw(x), unit=None, isq=False, size=None))
        if x.isq is None and x.unit is not None:
            return I.cell(st, x.but(e=X.ite(X.bvar("isq:%d" % x.e.id), self.raw(x), x.e), unit=None, isq=False, size=None))
        if k.get("dtype") is not None or len(a) > 1:
            d = k.get("dtype", a[1] if len(a) > 1 else None)
            if "int" in (getattr(d, "name", None) or str(d)):
                return I.unk("integer array", n)
            x = self.narrowed(x, d)
        return I.cell(st, x.but(size=None))

    def np_asarray(self, a, k, st, n):
        from .interp import Ref
        v = a[0]
        if isinstance(v, Ref) and self.I.o(v).kind == "num" and k.get("dtype") is None and len(a) == 1:
            x = self.N(v, st)
            if x.isq is False:
                return v
        return self.np_array(a, k, st, n)

    np_asanyarray = np_asarray

    def _shape_full(self, shape, val, st, n):
        """array of the given shape filled with val"""
        from .interp import Num, Tup, Ref
        I = self.I
        s = shape
        if isinstance(s, Tup) and len(s.items) == 1:
            s = s.items[0]
        if isinstance(s, Ref) and I.o(s).kind == "list":
            s = Tup([x for x, _ in I.rd(st, (s.oid, "items"), ())])
        if isinstance(s, Tup):
            rows, grid, wl = None, None, False
            for q in s.items:
                m = self.N(q, st)
                if m is None:
                    return I.unk("shape", n)
                if m.size is not None and m.size[0] == "wl":
                    wl, grid = True, m.size[1]
                elif isinstance(self.key(m), int):
                    rows = self.key(m)
                else:
                    return I.unk("shape", n)
            return I.cell(st, Num(X.full(val, rows, wl), None, False, grid))
        m = self.N(s, st)
        if m is None:
            return I.unk("shape", n)
        if m.size is not None:
            if m.size[0] == "wl":
                return I.cell(st, Num(X.full(val, None, True), None, False, m.size[1]))
            return I.cell(st, Num(X.full(val, m.size[1]), None, False))
        kk = self.key(m)
        if isinstance(kk, int) and not isinstance(kk, bool):
            if kk == 0:
                return self.mklist(st, [])
            return I.cell(st, Num(X.full(val, kk), None, False))
        return I.cell(st, Num(val, None, False, None, length=m.e))

    def np_ones(self, a, k, st, n):
        return self._shape_full(self.arg(a, k, 0, "shape"), X.ONE, st, n)

    def np_zeros(self, a, k, st, n):
        return self._shape_full(self.arg(a, k, 0, "shape"), X.ZERO, st, n)

    def np_empty(self, a, k, st, n):
        return self._shape_full(self.arg(a, k, 0, "shape"), X.unk("uninitialised array"), st, n)

    def np_full(self, a, k, st, n):
        from .interp import Num
        w = self.N(self.arg(a, k, 1, "fill_value"), st)
        if w is None:
            return self.I.unk("np.full", n)
        r = self._shape_full(self.arg(a, k, 0, "shape"), w.e, st, n)
        m = self.N(r, st)
        if m is not None and w.isq is True:
            return self.I.cell(st, m.but(unit=w.unit, isq=True))
        return r

    def _like(self, a, val, st, n):
        x = self.N(a[0], st)
        if x is None:
            return self.I.unk("like", n)
        if x.e.rows is None and not x.e.wl:
            return self.I.fresh(st, x.but(e=X.mul(val, self.uu(x)), size=None))
        e = X.full(val, x.e.rows, x.e.wl)
        if x.isq is True:
            e = X.mul(e, self.uu(x))
        return self.I.cell(st, x.but(e=e, size=None))

    def np_ones_like(self, a, k, st, n):
        return self._like(a, X.ONE, st, n)

    def np_zeros_like(self, a, k, st, n):
        return self._like(a, X.ZERO, st, n)

    def np_full_like(self, a, k, st, n):
        w = self.N(a[1], st)
        return self._like(a, w.e, st, n) if w is not None and w.isq is False else self.I.unk("full_like", n)

    def np_arange(self, a, k, st, n):
        from .interp import Num
        I = self.I
        m = self.N(a[0], st)
        if len(a) == 1 and m is not None and m.size is not None and m.size[0] == "wl":
            return I.cell(st, Num(X.IDX, None, False, m.size[1]))
        ks = [self.key(self.N(x, st)) for x in a]
        if all(isinstance(x, int) for x in ks) and len(range(*ks)) < 200:
            return I.cell(st, Num(X.stack([X.K(i) for i in range(*ks)])))
        return I.unk("arange", n)

    def _space(self, kind, a, k, st, n):
        from .interp import Num
        I = self.I
        lo, hi = self.N(self.arg(a, k, 0, "start"), st), self.N(self.arg(a, k, 1, "stop"), st)
        num = self.N(self.arg(a, k, 2, "num", Num(X.K(50))), st)
        if lo is None or hi is None or num is None:
            return I.unk(kind, n)
        ks = [self.key(x) for x in (lo, hi, num)]
        tag = (kind, lo.e, hi.e, num.e)
        u = lo.unit if lo.isq is not False else None
        isq = lo.isq if kind == "linspace" else False
        e = X.mk("opq", "grid:" + kind, lo.e, hi.e, num.e, wl=True)
        e = X.mk("gridpts", kind, lo.e, hi.e, num.e, wl=True)
        return I.cell(st, Num(e, u if isq else None, isq, tag))

    def np_logspace(self, a, k, st, n):
        return self._space("logspace", a, k, st, n)

    def np_linspace(self, a, k, st, n):
        return self._space("linspace", a, k, st, n)

    def np_append(self, a, k, st, n):
        """concatenation along rows"""
        return self._concat([a[0], a[1]], st, n)

    def np_delete(self, a, k, st, n):
        from .interp import Num
        x, m = self.N(a[0], st), self.mask_of(a[1], st)
        i = self.N(a[1], st) if m is None else None
        if x is not None and i is not None and i.e.op == "k" and x.e.rows is not None and not x.e.wl and not i.e.isb:
            j = int(i.e.args[0])
            if not -x.e.rows <= j < x.e.rows:
                from .interp import Diverge
                self.I.pend("IndexError", st, n)
                raise Diverge()
            return self.I.cell(st, x.but(e=X.take(x.e, [r for r in range(x.e.rows) if r != j % x.e.rows]), size=None))
        if x is None or m is None:
            return self.I.unk("numpy.delete", n)
        return self.numitem(x, Num(X.NOT(m.e), None, False, m.grid), st, n)

    def np_insert(self, a, k, st, n):
        i = self.key(a[1])
        its = self.iterate(a[1], st, n) if i is None or not isinstance(i, (int, float)) else None
        if its is not None and len(its) == 1:
            i = self.key(its[0][0])
        if i == 0 and len(a) > 2:
            x = self.N(a[0], st)
            r = self._concat([a[2], a[0]], st, n)
            y = self.N(r, st)
            return r if x is None or y is None else self.I.cell(st, y.but(unit=x.unit, isq=x.isq))
        return self.I.unk("insert", n)

    def np_concatenate(self, a, k, st, n):
        its = self.iterate(a[0], st, n)
        if its is None or any(c is not X.TRUE for _, c in its):
            return self.I.unk("concatenate", n)
        return self._concat([x for x, _ in its], st, n)

    np_hstack = np_concatenate

    def _concat(self, vs, st, n):
        I = self.I
        ns = []
        for v in vs:
            from .interp import Ref
            if isinstance(v, Ref) and I.o(v).kind == "list" and not I.rd(st, (v.oid, "items"), ()):
                continue
            m = self.N(v, st)
            if m is None:
                return I.unk("concatenation", n)
            ns.append(m)
        if not ns:
            return self.mklist(st, [])
        if any(m.e.wl for m in ns):
            return I.unk("concatenation of spectra", n)
        es = []
        isq = ns[0].isq
        for m in ns:
            e = m.e
            if isq is False and m.isq is True:
                e = self.raw(m)
            es.append(e if e.rows is not None else X.stack([e]))
        return I.cell(st, ns[0].but(e=X.rowcat(es), size=None))

    def np_geomspace(self, a, k, st, n):
        a, k = list(a), dict(k)
        lo, hi = self.arg(a, k, 0, "start"), self.arg(a, k, 1, "stop")
        x, y = self.N(lo, st), self.N(hi, st)
        if x is None or y is None or x.isq is not False or y.isq is not False or self.arg(a, k, 3, "endpoint") is not None:
            return self.I.unk("geomspace", n)
        num = self.arg(a, k, 2, "num")
        return self._space("logspace", [self.np_log10([lo], {}, st, n), self.np_log10([hi], {}, st, n)] + ([num] if num is not None else []), {}, st, n)

    def np_count_nonzero(self, a, k, st, n):
        return self._red("sum", a, k, st, n)

    def np_vstack(self, a, k, st, n):
        its = self.iterate(a[0], st, n)
        if its is None or any(c is not X.TRUE for _, c in its):
            return self.I.unk("vstack", n)
        ms = [self.N(x, st) for x, _ in its]
        if any(m is None or m.e.rows is not None or not m.e.wl for m in ms):
            return self.I.unk("vstack", n)
        return self.np_array([a[0]], {}, st, n)

    def np_stack(self, a, k, st, n):
        return self.I.unk("np.stack", n)

    def np_flip(self, a, k, st, n):
        x = self.N(a[0], st)
        if x is None or x.e.rows is not None and x.e.wl:
            return self.I.unk("flip", n)
        if x.e.wl:
            return self.I.cell(st, x.but(e=X.mk("flip", x.e, wl=True, isb=x.e.isb)))
        if x.e.rows is not None:
            return self.I.cell(st, x.but(e=X.take(x.e, list(range(x.e.rows))[::-1])))
        return a[0]

    def np_sort(self, a, k, st, n):
        x = self.N(a[0], st)
        if x is None:
            return self.I.unk("sort", n)
        if x.e.rows is not None and not x.e.wl:
            return self.I.cell(st, x.but(e=X.gather(x.e, X.order(x.e))))
        return self.I.cell(st, x.but(e=X.mk("opq", "sort", x.e, rows=x.e.rows, wl=x.e.wl), grid=("sorted", x.grid)))

    def np_argsort(self, a, k, st, n):
        x = self.N(a[0], st)
        return self.I.fresh(st, self.opaque_arr("argsort", x)) if x is not None else self.I.unk("argsort", n)

    def np_argmin(self, a, k, st, n):
        x = self.N(a[0], st)
        return self.I.fresh(st, self.argext("argmin", x)) if x is not None else self.I.unk("argmin", n)

    def np_argmax(self, a, k, st, n):
        x = self.N(a[0], st)
        return self.I.fresh(st, self.argext("argmax", x)) if x is not None else self.I.unk("argmax", n)

    def np_unique(self, a, k, st, n):
        d = self.settle(a[0], st, n) if not k and len(a) == 1 and self.N(a[0], st) is None else None
        if d is not None and all(isinstance(x, str) and c is X.TRUE for x, c in d.items()):
            from .lib import StrCol
            return StrCol(sorted(d))
        return self.I.unk("unique", n)

    # ------------------------------------------------------------ selection
    def np_where(self, a, k, st, n):
        from .interp import Num, Tup
        I = self.I
        m = self.N(a[0], st)
        if m is None or not m.e.isb:
            return I.unk("where", n)
        if len(a) == 1:
            return Tup([I.fresh(st, m.but(isidx=True))])
        x, y = self.N(a[1], st), self.N(a[2], st)
        if x is None or y is None:
            return I.unk("where", n)
        r = I.itenum(m.e, x, y)
        e, g = self.elementwise(r.e, m, x, y)
        return I.fresh(st, r.but(e=e, grid=g, size=None, isq=x.isq if x.isq == y.isq else True if True in (x.isq, y.isq) else None,
                                 unit=x.unit if x.isq is not False else y.unit))

    def np_nonzero(self, a, k, st, n):
        from .interp import Tup
        m = self.N(a[0], st)
        if m is not None and m.e.wl and isinstance(m.grid, tuple) and m.grid[:1] == ("cut",) and len(m.grid) == 2:
            # steps of a wavelength grid: dropping repeated samples leaves the function of wavelength as it is
            return Tup([self.I.fresh(st, m.but(e=X.TRUE, unit=None, isq=False, grid=m.grid[1], isidx=True))])
        if m is not None and not m.e.isb and m.e.rows is not None:
            m = m.but(e=X.NOT(X.cmp("eq", m.e, X.ZERO)), unit=None, isq=False)
        if m is None or not m.e.isb:
            return self.I.unk("nonzero", n)
        return Tup([self.I.fresh(st, m.but(isidx=True))])

    # ------------------------------------------------------------ reductions
    def _red(self, kind, a, k, st, n):
        ax = self.arg(a, k, 1, "axis")
        from .interp import Ref, Tup
        return self.reduce(kind, a[0], self.key(ax) if ax is not None else None, st, n)

    def np_sum(self, a, k, st, n):
        return self._red("sum", a, k, st, n)

    def np_mean(self, a, k, st, n):
        return self._red("mean", a, k, st, n)

    def np_max(self, a, k, st, n):
        return self._red("max", a, k, st, n)

    def np_min(self, a, k, st, n):
        return self._red("min", a, k, st, n)

    def np_median(self, a, k, st, n):
        return self._red("median", a, k, st, n)

    def np_average(self, a, k, st, n):
        if len(a) > 2 or "weights" in k:
            w = self.arg(a, k, 2, "weights")
            if w is not None:
                num = self.np_sum([self.binop("Mult", a[0], w, st, n)] + list(a[1:2]), {x: k[x] for x in ("axis",) if x in k}, st, n)
                den = self.np_sum([w] + list(a[1:2]), {x: k[x] for x in ("axis",) if x in k}, st, n)
                return self.binop("Div", num, den, st, n)
        return self._red("mean", a[:2], {x: k[x] for x in ("axis",) if x in k}, st, n)

    def np_ptp(self, a, k, st, n):
        return self._red("ptp", a, k, st, n)

    np_nanmean = np_mean
    np_nanmedian = np_median
    np_amax = np_max
    np_amin = np_min
    np_nanmax = np_max
    np_nanmin = np_min
    np_nansum = np_sum

    def np_any(self, a, k, st, n):
        return self._red("any", a, k, st, n)

    def np_all(self, a, k, st, n):
        return self._red("all", a, k, st, n)

    def np_std(self, a, k, st, n):
        return self._red("std", a, k, st, n)

    def np_prod(self, a, k, st, n):
        I = self.I
        its = self.iterate(a[0], st, n)
        if its is not None:
            from .interp import Num
            acc = Num(X.ONE)
            for x, c in its:
                nx = self.binop("Mult", acc, x, st, n)
                acc = nx if c is X.TRUE else I.mkphi(c, nx, acc)
            return acc
        return self._red("prod", a, k, st, n)

    def np_size(self, a, k, st, n):
        return self.valattr(a[0], "size", st, n)

    def np_shape(self, a, k, st, n):
        return self.valattr(a[0], "shape", st, n)

    def np_trapz(self, a, k, st, n):
        I = self.I
        y = self.N(a[0], st)
        xv = self.arg(a, k, 1, "x")
        x = self.N(xv, st) if xv is not None else None
        if y is None or x is None:
            return I.unk("trapz", n)
        if not x.e.wl and not y.e.wl:
            return I.unk("trapz off the spectral axis", n)
        g, mixed = self.joingrid(y, x)
        e = X.trapz(y.e, x.e)
        if mixed:
            e = X.mk("mix", e, rows=e.rows, wl=False)
        isq = True if (y.isq is True or x.isq is True) else y.isq if y.isq == x.isq else None
        return I.fresh(st, y.but(e=e, unit=X.mul(self.uu(y), self.uu(x)) if isq is not False else None, isq=isq, grid=None, size=None))

    np_trapezoid = np_trapz

    def q_cumtrapz(self, a, k, st, n):
        return self.I.unk("cumulative_trapezoid", n)

    def np_diff(self, a, k, st, n):
        x = self.N(a[0], st)
        if x is None:
            return self.I.unk("diff", n)
        if x.e.wl and x.e.rows is None:
            return self.I.cell(st, x.but(e=X.sub(X.mk("shift", x.e, 1, wl=True), x.e), grid=("cut", x.grid)))
        if x.e.rows is not None and not x.e.wl:
            return self.I.cell(st, x.but(e=X.stack([X.sub(X.el(x.e, i + 1), X.el(x.e, i)) for i in range(x.e.rows - 1)])))
        return self.I.unk("diff", n)

    def np_gradient(self, a, k, st, n):
        x = self.N(a[0], st)
        if x is None or len(a) > 1:
            return self.I.unk("gradient", n)
        return self.I.cell(st, x.but(e=X.mk("gradient", x.e, rows=x.e.rows, wl=x.e.wl)))

    def np_convolve(self, a, k, st, n):
        I = self.I
        x, w = self.N(a[0], st), self.N(a[1], st)
        mode = self.arg(a, k, 2, "mode", "full")
        if x is None or w is None or mode != "same":
            return I.unk("convolve", n)
        if x.length is not None and w.length is None:
            x, w = w, x
        if w.length is None or not x.e.wl:
            return I.unk("convolve", n)
        e = X.mk("conv", x.e, w.length, rows=x.e.rows, wl=True)
        e = X.mul(e, w.e)
        isq = True if True in (x.isq, w.isq) else x.isq
        return I.cell(st, x.but(e=e, unit=X.mul(self.uu(x), self.uu(w)) if isq is not False else None, isq=isq))

    def np_interp(self, a, k, st, n):
        from .interp import Interp1
        return self.interp_eval(Interp1(a[1], a[2], "linear", "clip"), a[0], st, n)

    def np_meshgrid(self, a, k, st, n):
        return self.I.unk("meshgrid", n)

    # ------------------------------------------------------------ interpolation
    def q_interp1d(self, a, k, st, n):
        from .interp import Interp1
        f = k.get("fill_value")
        kind = self.arg(a, k, 2, "kind", "linear")
        kind = kind if isinstance(kind, str) else repr(kind)
        srt = k.get("assume_sorted")
        x = self.N(a[0], st)
        if srt is not None and self.I.truth(srt, st, n) is not X.FALSE and not (x is not None and X.gridbase(self.raw(x)) is not None):
            kind = kind + " of samples in their order"
        return Interp1(a[0], a[1], kind, f)

    def interp_eval(self, f, zv, st, node):
        from .interp import Num, Tup, Phi
        I = self.I
        x, y, z = self.N(f.x, st), self.N(f.y, st), self.N(zv, st)
        if x is None or y is None or z is None:
            return I.unk("interpolation", node)
        xr, yr, zr = self.raw(x), self.raw(y), self.raw(z)
        fill = f.fill
        c = X.gridcase(xr)
        if c is not None:
            r = []
            for v in (True, False):
                g = type(f)(I.cell(st, x.but(e=X.pick(x.e, c, v))), I.cell(st, y.but(e=X.pick(y.e, c, v))), f.kind, f.fill)
                rn = self.N(self.interp_eval(g, zv, st, node), st)
                if rn is None:
                    return I.unk("interpolation", node)
                r.append(rn)
            return I.cell(st, r[0].but(e=X.ite(c, r[0].e, r[1].e)))
        # x is the wavelength scaled by a factor that does not depend on it
        s = self.lamscale(xr)
        if s is not None and y.e.wl:
            lam = X.div(zr, s)
            e = X.at(yr, lam)
            if f.kind not in ("linear", "slinear", "quadratic", "cubic"):
                e = X.opq("interpolation " + f.kind, e)
            if isinstance(fill, Tup):
                lo, hi = self.N(fill.items[0], st), self.N(fill.items[1], st)
                if lo is None or hi is None:
                    return I.unk("fill value", node)
                fe = X.ite(X.cmp("lt", lam, X.K(0)), lo.e, X.opq("fillpair", lo.e, hi.e)) if lo.e is not hi.e else lo.e
                e = X.ite(X.inr(lam, self.gridtag(x)), e, fe)
            elif isinstance(fill, str):
                if fill != "extrapolate" and fill != "clip":
                    return I.unk("fill value", node)
            elif fill is not None:
                fn = self.N(fill, st)
                if fn is None:
                    return I.unk("fill value", node)
                e = X.ite(X.inr(lam, self.gridtag(x)), e, fn.e)
            return I.cell(st, Num(e, None, False, z.grid))
        fe = None
        if fill is not None and not isinstance(fill, str):
            if isinstance(fill, Tup):
                return I.unk("fill value", node)
            fn = self.N(fill, st)
            fe = fn.e if fn is not None else X.unk("fill value")
        gb = X.gridbase(xr)
        if gb is not None and f.kind in ("linear", "slinear") and (fe is not None or fill == "extrapolate"):
            try:
                e = X.regrid(yr, gb[0], X.div(zr, gb[1]))
                if fe is not None:
                    lo, hi = (X.mul(v, gb[1]) for v in X.gridends(gb[0]))
                    e = X.ite(X.AND(X.cmp("le", lo, zr), X.cmp("le", zr, hi)), e, fe)
                return I.cell(st, Num(e, None, False, z.grid))
            except X.NoSubst:
                pass
        if xr.rows is not None and xr.rows > 1 and yr.rows == xr.rows and not xr.wl and not yr.wl and (fe is not None or fill == "extrapolate"):
            e = X.piecewise(xr, yr, zr, fe)
            if f.kind not in ("linear", "slinear"):
                e = X.opq("interpolation " + f.kind, e)
            return I.cell(st, Num(e, None, False, z.grid))
        e = X.mk("interp", self.fing(xr), self.fing(yr), zr, rows=zr.rows, wl=zr.wl)
        if f.kind not in ("linear", "slinear"):
            e = X.opq("interpolation " + f.kind, e)
        if fe is not None:
            e = X.ite(X.inr(zr, "g%d" % self.fing(xr).id), e, fe)
        return I.cell(st, Num(e, None, False, z.grid))

    def fing(self, e):
        """an array as a whole"""
        return X.mk("curve", e) if (e.wl or e.rows is not None) else e

    def gridtag(self, x):
        return repr(x.grid)

    def lamscale(self, e):
        """s when e == λ*s with s independent of λ"""
        if e is X.LAM:
            return X.ONE
        if e.op == "mul":
            a, b = e.args
            if b.wl and not a.wl and a.rows is None:
                a, b = b, a
            if a.wl and not b.wl and b.rows is None:
                s = self.lamscale(a)
                return X.mul(s, b) if s is not None else None
        if e.op == "ite" and not e.args[0].wl and e.args[0].rows is None:
            a, b = self.lamscale(e.args[1]), self.lamscale(e.args[2])
            if a is not None and b is not None:
                return X.ite(e.args[0], a, b)
        return None

    # ------------------------------------------------------------ astropy
    def q_Unit(self, a, k, st, n):
        from .interp import UnitV, Phi, StrV, Ref, Unk, Diverge
        I = self.I
        v = a[0]
        if isinstance(v, Phi):
            return I.split(v, st, lambda x, s: self.q_Unit([x] + list(a[1:]), k, s, n))
        if isinstance(v, str) and no_unit(v):
            I.pend("ValueError", st, n)
            raise Diverge()
        u = self.unit_of(v, st)
        if u is None:
            if isinstance(v, StrV):
                return UnitV(X.uof(repr(v.parts)))
            m = self.N(v, st)
            if m is not None:
                return UnitV(m.e)
            return I.unk("unit of %r" % (v,), n)
        return UnitV(u)

    def q_Quantity(self, a, k, st, n):
        from .interp import Num, UnitV, Phi, Tup, Ref
        I = self.I
        v = a[0]
        if isinstance(v, str):
            return I.unk("quantity from a string", n)
        if isinstance(v, Phi) and self.N(v, st) is None:
            return I.split(v, st, lambda x, s: self.q_Quantity([x] + list(a[1:]), k, s, n))
        m = self.N(v, st)
        uv = self.arg(a, k, 1, "unit")
        if m is None:
            return I.unk("quantity", n)
        if uv is None:
            if m.isq is False:
                return I.cell(st, m.but(unit=X.ONE, isq=True, size=None))
            return I.cell(st, m.but(isq=True, size=None))
        u = self.unit_of(uv, st)
        if u is None:
            return I.unk("quantity unit", n)
        if m.isq is False:
            return I.cell(st, m.but(e=X.mul(m.e, u), unit=u, isq=True, size=None))
        if m.isq is None:
            return I.cell(st, m.but(e=X.ite(X.bvar("isq:%d" % m.e.id), m.e, X.mul(m.e, u)), unit=u, isq=True, size=None))
        return I.cell(st, m.but(unit=u, isq=True, size=None))

    def q_column(self, a, k, st, n):
        data = self.arg(a, k, 0, "data")
        if "unit" in k and k["unit"] is not None:
            return self.q_Quantity([data, k["unit"]], {}, st, n)
        return data

    def q_table(self, a, k, st, n):
        from .interp import Tup, Ref
        I = self.I
        data = self.arg(a, k, 0, "data")
        names = k.get("names")
        if data is None:
            t = self.newtable(st)
            return t
        if isinstance(data, Ref) and I.o(data).kind == "table":
            return self.copyval(data, st, st, True)
        es = self.dict_entries(data, st) if not isinstance(data, Tup) else None
        t = self.newtable(st)
        if es is not None:
            for kk, c in es:
                if c is not X.TRUE:
                    return I.unk("table from a conditional dict", n)
                self.setcol(t, kk, self.getitem(data, kk, st, n), st, n)
            return t
        its = self.iterate(data, st, n)
        ns = self.iterate(names, st, n) if names is not None else None
        if its is None or ns is None or len(its) != len(ns) or any(c is not X.TRUE for _, c in its):
            return I.unk("table", n)
        for (x, _), (nm, _) in zip(its, ns):
            self.setcol(t, nm, x, st, n)
        if "meta" in k and k["meta"] is not None:
            I.wr(st, (t.oid, "attr", "meta"), k["meta"])
        return t

    def q_hstack(self, a, k, st, n):
        from .interp import Ref
        I = self.I
        its = self.iterate(a[0], st, n)
        if its is None or any(c is not X.TRUE for _, c in its):
            return I.unk("hstack", n)
        return self.beside([x for x, _ in its], st, n)

    def beside(self, its, st, n):
        from .interp import Ref, Phi
        I = self.I
        for i, x in enumerate(its):
            if isinstance(x, Phi):
                return I.split(x, st, lambda y, s, i=i: self.beside(its[:i] + [y] + its[i + 1:], s, n))
        t = self.newtable(st)
        count = {}
        for x in its:
            if not (isinstance(x, Ref) and I.o(x).kind == "table"):
                return I.unk("hstack of %r" % (x,), n)
            for kk, c in I.rd(st, (x.oid, "keys"), ()):
                count[kk] = count.get(kk, 0) + 1
        for i, x in enumerate(its):
            cp = self.copyval(x, st, st, True)
            for kk, c in I.rd(st, (cp.oid, "keys"), ()):
                nm = kk if count[kk] == 1 else "%s_%d" % (kk, i + 1)
                I.wr(st, (t.oid, "item", nm), I.rd(st, (cp.oid, "item", kk), None))
                I.wr(st, (t.oid, "keys"), I.rd(st, (t.oid, "keys"), ()) + ((nm, c),))
            m = I.rd(st, (cp.oid, "attr", "meta"), None)
            dst = I.rd(st, (t.oid, "attr", "meta"))
            es = self.dict_entries(m, st) if m is not None else []
            for mk_, c in es or []:
                self.dset(dst, mk_, I.rd(st, (m.oid, "item", mk_), None), st, c)
        return t

    def q_vstack(self, a, k, st, n):
        from .interp import Ref, Diverge
        I = self.I
        its = self.iterate(a[0], st, n)
        if its is None or any(c is not X.TRUE for _, c in its):
            return I.unk("vstack", n)
        its = [x for x, _ in its]
        if len(its) == 1:
            return self.copyval(its[0], st, st, True)
        t = self.newtable(st)
        cols = []
        for x in its:
            if not (isinstance(x, Ref) and I.o(x).kind == "table"):
                return I.unk("vstack of %r" % (x,), n)
            for kk, c in I.rd(st, (x.oid, "keys"), ()):
                if kk not in cols:
                    cols.append(kk)
        join = k.get("join_type", "outer")
        for kk in cols:
            parts = []
            for x in its:
                es = dict(I.rd(st, (x.oid, "keys"), ()))
                if kk not in es or es[kk] is not X.TRUE:
                    parts = None
                    break
                parts.append(I.rd(st, (x.oid, "item", kk)))
            if parts is None:
                if join == "inner":
                    continue
                I.wr(st, (t.oid, "item", kk), I.unk("masked column", n))
                I.wr(st, (t.oid, "keys"), I.rd(st, (t.oid, "keys"), ()) + ((kk, X.TRUE),))
                continue
            from .lib import StrCol
            if all(isinstance(p, StrCol) for p in parts):
                v = StrCol(sum((p.items for p in parts), ()))
            else:
                ns = [self.N(p, st) for p in parts]
                if any(m is None or m.e.rows is None for m in ns):
                    v = I.unk("stacked column", n)
                else:
                    if {True, False} <= {m.isq for m in ns}:
                        # astropy: unmergeable object classes
                        I.pend("ValueError", st, n)
                        raise Diverge()
                    last = ns[-1]
                    if last.isq is True and last.unit is not None:
                        for m in ns[:-1]:
                            if m.isq is True and m.unit is not None:
                                self.convertible(m.unit, last.unit, st, n)
                    v = I.cell(st, last.but(e=X.rowcat([m.e for m in ns])))
            I.wr(st, (t.oid, "item", kk), v)
            I.wr(st, (t.oid, "keys"), I.rd(st, (t.oid, "keys"), ()) + ((kk, X.TRUE),))
        return t


from .interp import Num  # noqa: E402
