"""C28: the light of a star; C27: the source of a target."""
from .. import expr as X
from .. import model as M
from ..interp import ClsV, Tup, Num, Diverge, Phi, Ref
from ..repo import Broken
from .stellar import mul, U
from .noise import task

K = X.K
SW = "exorad/models/source.py "
LW = "exorad/tasks/loadSource.py LoadSource"
PI = K(3.141592653589793)
NAMES = ["lte%03d.0-%.1f-0.0a+0.0.BT-Settl.spec.fits.gz" % tg for tg in ((2, 0.5), (2, 1.5), (4, 0.5), (4, 1.0), (5, 1.5))]
DIR = "/models"


def star_rules(m, p="", R="R", D="D", T="T", logg="logg"):
    for q in (R, D):
        m.exact[p + q] = M.n(p + q)
    u = U("K")
    m.exact[p + T] = {"num": Num(mul(X.var(p + T, kind="temp"), u), X.uof(p + T), True)}
    if logg:
        m.exact[p + logg] = M.n(p + logg, isq=False)
    m.exact["lo"], m.exact["hi"] = M.n("lo", kind="lam_lo"), M.n("hi", kind="lam_hi")
    return m


def phoenix_rules(m):
    d = "fits[1].data[%s]"
    m.exact[d % "Wavelength"] = {"num": Num(X.div(X.LAM, M.UM), None, False, "ph")}
    m.exact[d % "Flux"] = {"num": Num(X.var(d % "Flux", wl=True), None, False, "ph")}
    m.exact["fits[1].header[TUNIT1]"] = {"str": "um"}
    m.exact["fits[1].header[TUNIT2]"] = {"str": "W / (m2 um)"}
    return m


def phoenix_stub(opened, names=NAMES):
    def ls(lib, name, a, k, st, node):
        return lib.mklist(st, [DIR + "/" + n for n in names])

    def op(lib, name, a, k, st, node):
        opened.append(a[0])
        return lib.I.region("fits")
    return {"ext:glob.glob": ls, "ext:astropy.io.fits.open": op}


def choice(v, names):
    """index among the names of an abstract string"""
    if isinstance(v, Phi):
        a, b = choice(v.a, names), choice(v.b, names)
        return X.ite(v.cond, a, b) if a is not None and b is not None else None
    return K(names.index(v)) if v in names else None


def known(there):
    return lambda lib, nm, a, k, st, node: Num(X.TRUE if there else X.FALSE)


def nearest(T, logg, Z=X.ZERO):
    import re
    rows = [re.match(r"lte([\d.]+)-([\d.]+)-([\d.]+)a", n).groups() for n in NAMES]
    col = lambda i: X.stack([K(float(r[i])) for r in rows])
    ab = lambda e: X.fn("abs", e)
    t = X.fn("round", X.div(T, mul(U("K"), K(100.0))))
    d = X.add(X.add(ab(X.sub(col(0), t)), ab(X.sub(col(1), logg))), ab(X.sub(col(2), Z)))
    return X.mk("argext", "argmin", d), X.OR(X.cmp("lt", t, K(2.0)), X.cmp("lt", K(5.0), t))


def planck_law(R, D, T, grid):
    s = mul(PI, X.pw(X.div(R, D), K(2.0)), U("sr"), X.opq("planck", grid, T), U("W m-2 um-1 sr-1"))
    L = mul(K(4.0), PI, X.pw(D, K(2.0)), X.trapz(s, grid))
    return s, L


def surface_law(R, D, flux, grid):
    return mul(flux, X.pw(X.div(R, D), K(2.0))), mul(K(4.0), PI, X.pw(R, K(2.0)), X.trapz(flux, grid))


def attrs(I, obj, st):
    sed = I.getattr(obj, "sed", st)
    g = lambda o, a: I.num(I.getattr(o, a, st), st)
    return g(sed, "wl_grid"), g(sed, "data"), g(obj, "luminosity")


def compare(ctx, name, where, got, law, spec=None, pre=None, grid=None):
    wl, data, lum = got
    if wl is None:
        ctx.res.und(name + ": wavelengths", where, "no value")
        return
    s, L = law(grid or wl.e)
    if grid is not None:
        ctx.eq(name + ": wavelengths", where, wl, grid, spec, pre)
    ctx.eq(name + ": spectrum", where, data, s, spec, pre)
    ctx.eq(name + ": luminosity", where, lum, L, spec, pre)


def ends(ctx, name, where, wl, lo, hi):
    gb = X.gridbase(wl.e) if wl is not None else None
    if gb is None:
        ctx.res.und(name + ": range", where, "not a generated grid")
        return
    for e, w, t in zip(X.gridends(gb[0]), (lo, hi), ("shortest", "longest")):
        ctx.eq("%s: %s wavelength" % (name, t), where, X.mul(e, gb[1]), w)


def star(ctx):
    cls = {n: ctx.repo.find_class(n) for n in ("Star", "CustomSed")}
    for n, c in cls.items():
        if c is None:
            raise Broken("class %s is gone" % n)
    # black body
    m = star_rules(M.Model(1))
    R, D, T, LG = (m.exact[k]["num"].e for k in ("R", "D", "T", "logg"))
    W = SW + "Star"

    def args(I, use):
        r = I.region
        return {"star_sed_path": DIR, "starDistance": r("D"), "starTemperature": r("T"), "starLogg": r("logg"), "starMetallicity": Num(X.var("Z")),
                "starRadius": r("R"), "use_planck_spectrum": Num(X.TRUE if use else X.FALSE), "wl_min": r("lo"), "wl_max": r("hi")}
    r = ctx.run("black body star", W, m, lambda I, st: I.call(ClsV(cls["Star"]), [], args(I, True), st))
    if r:
        I, st, v = r
        got = attrs(I, v, st)
        compare(ctx, "black body star", W, got, lambda g: planck_law(R, D, T, g))
        ends(ctx, "black body star", W, got[0], m.exact["lo"]["num"].e, m.exact["hi"]["num"].e)
    # grid of models
    m = phoenix_rules(star_rules(M.Model(1)))
    opened = []
    best, out = nearest(T, LG, X.var("Z"))
    flux = mul(X.var("fits[1].data[Flux]", wl=True), U("W m-2 um-1"))
    r = ctx.run("model star", W, m, lambda I, st: I.call(ClsV(cls["Star"]), [], args(I, False), st), stub=phoenix_stub(opened), total=None)
    if r:
        I, st, v = r
        spec = {"noties": True}
        compare(ctx, "model star", W, attrs(I, v, st), lambda g: surface_law(R, D, flux, g), grid=X.LAM)
        files = [DIR + "/" + n for n in NAMES]
        which = [choice(o, files) for o in opened]
        if len(which) == 1 and which[0] is not None:
            ctx.eq("model nearest to the star", W, which[0], best, spec, X.NOT(out))
            nm = choice(I.getattr(v, "model", st), NAMES)
            if nm is not None:
                ctx.eq("name of the model", W, nm, best, spec, X.NOT(out))
        else:
            ctx.res.und("model nearest to the star", W, "%s" % opened)
        done = X.TRUE
        for c, b in st.guard:
            done = X.AND(done, c if b else X.NOT(c))
        ctx.eq("stars outside the grid of models are refused", W, done, X.NOT(out), spec)
    # one model is enough
    opened = []
    r = ctx.run("star with a single model", W, phoenix_rules(star_rules(M.Model(1))), lambda I, st: I.call(ClsV(cls["Star"]), [], args(I, False), st),
                stub=phoenix_stub(opened, NAMES[2:3]), total=None)
    if r:
        ctx.res.check(opened == [DIR + "/" + NAMES[2]], "single model used", W, "%s" % opened)
        I, st, v = r
        nm = I.getattr(v, "model", st)
        ctx.res.check(nm == NAMES[2], "name of the single model", W, "%r" % (nm,))
    # the model asked for, whatever the directory holds
    for there in (False, True):
        opened = []
        given = "lte060.0-5.0-0.0a+0.0.given.spec.fits.gz"
        name = "star of the model asked for, %s" % ("found" if there else "not found")
        stub = dict(phoenix_stub(opened, NAMES), **{"ext:os.path.exists": known(there), "ext:os.path.isfile": known(there)})
        r = ctx.run(name, W, phoenix_rules(star_rules(M.Model(1))),
                    lambda I, st: I.call(ClsV(cls["Star"]), [], dict(args(I, False), phoenix_model_filename=given), st), stub=stub, total=None)
        if r:
            I, st, v = r
            nm = I.getattr(v, "model", st)
            ctx.res.check(opened == [DIR + "/" + given] and nm == given, name, W, "%s, called %r" % (opened, nm))
    # custom
    m = star_rules(M.Model(1))
    c = "ph[%s]"
    m.exact["ph"] = {"table": ["Wavelength", "Sed"]}
    m.exact[c % "Wavelength"] = {"num": Num(X.LAM, X.uof("wl"), True, "ph")}
    m.exact[c % "Sed"] = M.n(c % "Sed", wl=True, unit="W m-2 um-1", grid="ph")
    m.exact["fname"] = {"str": "sed.csv"}
    W = SW + "CustomSed"
    seen = []

    def rd(lib, name, a, k, st, node):
        seen.append(a[0])
        return lib.I.region("ph")
    r = ctx.run("custom spectrum", W, m, lambda I, st: I.call(ClsV(cls["CustomSed"]), ["sed.csv", I.region("R"), I.region("D")], {}, st), stub={"ext:astropy.io.ascii.read": rd})
    if r:
        I, st, v = r
        compare(ctx, "custom spectrum", W, attrs(I, v, st), lambda g: surface_law(R, D, m.exact[c % "Sed"]["num"].e, g), grid=X.LAM)
        ctx.res.check(set(seen) == {"sed.csv"}, "custom spectrum read from the declared file", W, "reads %s" % seen)


def integration_grid(e, seen=None):
    """the generated grid a trapezoidal integral runs over"""
    seen = set() if seen is None else seen
    if not isinstance(e, X.E) or e.id in seen:
        return None
    seen.add(e.id)
    if e.op == "trapz" and X.gridbase(e.args[1]) is not None:
        return e.args[1]
    for a in e.args:
        r = integration_grid(a, seen)
        if r is not None:
            return r
    return None


TS = "target.star."


def target_rules(m, table=True):
    m.exact["target"] = {"cls": "Target", "has": {"table": table}}
    m.exact["target.star"] = {"cls": "Target", "has": {"magk": None, "luminosity": False, "sed": False, "model": False}}
    star_rules(m, TS, T="Teff", logg=None)
    m.exact[TS + "M"] = M.n(TS + "M")
    m.exact[TS + "R"]["num"] = Num(mul(X.var(TS + "R"), K(0.01)), X.uof(TS + "R"), True)
    m.exact["target.table"] = {"table": [], "cls": None}
    return m


def gravity():
    g = X.div(mul(X.atom("const.G"), X.var(TS + "M")), X.pw(mul(X.var(TS + "R"), K(0.01)), K(2.0)))
    return X.fn("log10", X.div(g, U("cm s-2")))


def load(ctx):
    """source of a target, for each description of it"""
    path = X.has("source", "StellarModels")
    lo, hi = X.var("lo"), X.var("hi")
    for tag, kind, as_str, swap, number in (
            ("black body", "Planck", False, False, False), ("a bare string", "planck", True, False, False), ("model", "Phoenix", False, False, False),
            ("custom", "custom", False, False, False), ("unknown", "nonsense", False, True, False), ("black body, range of plain numbers", "planck", False, True, True)):
        name = "source of a target: " + tag
        m = phoenix_rules(target_rules(M.Model(1)))
        u = U("um")
        if number:
            m.exact["lo"], m.exact["hi"] = (M.n(k, isq=False, kind=d) for k, d in (("lo", "lam_lo"), ("hi", "lam_hi")))
        cl, ch = (m.exact[k]["num"].e for k in ("lo", "hi"))
        if number:
            cl, ch = mul(cl, u), mul(ch, u)
        m.exact["source"] = {"keys": ["value", ("StellarModels",), ("CustomSed",)], "dcls": "dict"}
        m.exact["source[StellarModels]"] = {"keys": ["value"]}
        m.exact["source[CustomSed]"] = {"keys": ["value"]}
        m.exact["source[value]"] = {"str": kind}
        m.exact["source[CustomSed][value]"] = {"str": "sed.csv"}
        m.exact["source[StellarModels][value]"] = {"str": "/models"}
        c = "ph[%s]"
        m.exact["ph"] = {"table": ["Wavelength", "Sed"]}
        m.exact[c % "Wavelength"] = {"num": Num(X.LAM, X.uof("wl"), True, "ph")}
        m.exact[c % "Sed"] = M.n(c % "Sed", wl=True, unit="W m-2 um-1", grid="ph")
        opened, read, seen = [], [], []

        def rd(lib, nm, a, k, st, node):
            read.append(a[0])
            return lib.I.region("ph")

        def f(I, st):
            src = kind if as_str else I.region("source")
            rng = [I.region("lo"), I.region("hi")]
            t = I.region("target")
            seen.append(t)
            return I.call(task(I, "LoadSource", st), [], {"target": t, "source": src, "wl_range": Tup(rng[::-1] if swap else rng)}, st)
        stub = dict(phoenix_stub(opened), **{"ext:astropy.io.ascii.read": rd})

        def there(e):
            f = {l.args[0]: True for l in X.leaves(e) if l.op == "bvar" and l.args[0].startswith("os.exists")}
            f["has(source,CustomSed)"] = True
            f.update({l.args[0]: False for l in X.leaves(e) if l.op == "bvar" and l.args[0].startswith("isnone:os.environ")})
            return {"noties": True, "force": f}
        r = ctx.run(name, LW, m, f, stub=stub, total=there)
        here = seen[-1] if seen else None
        if kind.lower() in ("planck", "phoenix"):
            from .sampled import sampled
            sampled(ctx, name, LW, m, f, lambda I, st, v: attrs(I, I.getattr(seen[-1], "star", st), st)[0], stub=stub, total=there)
        if r is None:
            continue
        I, st, v = r
        R, D = m.exact[TS + "R"]["num"].e, m.exact[TS + "D"]["num"].e
        T = m.exact[TS + "Teff"]["num"].e
        s = I.getattr(here, "star", st)
        wl, data, lum = attrs(I, s, st)
        ends(ctx, name, LW, wl, cl, ch)
        if wl is None:
            ctx.res.und(name, LW, "no wavelengths")
            continue
        spec = there(X.add(data.e, lum.e) if data is not None and lum is not None else X.ONE)
        fine = integration_grid(lum.e) if lum is not None else None
        if fine is not None:
            ends(ctx, name + ", luminosity", LW, Num(fine), cl, ch)
        bb = planck_law(R, D, T, wl.e)[0], planck_law(R, D, T, fine if fine is not None else wl.e)[1]
        if kind.lower() == "phoenix":
            flux = mul(X.var("fits[1].data[Flux]", wl=True), U("W m-2 um-1"))
            best, out = nearest(T, gravity())
            a, b = surface_law(R, D, flux, X.LAM)
            law = X.ite(out, bb[0], X.at(a, wl.e)), X.ite(out, bb[1], b)
            files = [DIR + "/" + n for n in NAMES]
            which = [choice(o, files) for o in opened]
            if len(which) == 1 and which[0] is not None:
                ctx.eq(name + ": nearest model", LW, which[0], best, spec, X.NOT(out))
            model = None
        elif kind == "custom":
            flux = m.exact[c % "Sed"]["num"].e
            a, b = surface_law(R, D, flux, X.LAM)
            law = X.at(a, wl.e), b
            ctx.res.check(set(read) == {"sed.csv"}, name + ": file", LW, "reads %s" % read)
            model = "Custom"
        else:
            law = bb
            model = "Planck"
        ctx.eq(name + ": spectrum", LW, data, law[0], spec)
        ctx.eq(name + ": luminosity", LW, lum, law[1], spec)
        if model is not None:
            got = I.getattr(s, "model", st)
            ctx.res.text(I, got, model, name + ": model", LW, "the model is %s" % (got,))
        meta = I.getattr(I.getattr(here, "table", st), "meta", st)
        for k, a, q in (("starM", "M", 1), ("starTeff", "Teff", 1), ("starR", "R", 1), ("starDistance", "D", 1), ("starL", None, 1)):
            got = I.num(I.lib.getitem(meta, k, st, None), st)
            ctx.eq(name + ": metadata " + k, LW, got, m.exact[TS + a]["num"].e if a else law[1], spec)


def incomplete(ctx):
    """a star some of whose parameters carry no units"""
    for kind, attrs in (("planck", "D Teff M R"), ("phoenix", "D Teff M R"), ("custom", "D R")):
        for k in attrs.split():
            m = phoenix_rules(target_rules(M.Model(1)))
            m.exact["source"] = {"keys": ["value", "CustomSed", "StellarModels"], "dcls": "dict"}
            for q, t in (("[value]", kind), ("[CustomSed][value]", "sed.csv"), ("[StellarModels][value]", "/models")):
                m.exact["source" + q] = {"str": t}
            for q in ("CustomSed", "StellarModels"):
                m.exact["source[%s]" % q] = {"keys": ["value"]}
            m.exact["ph"] = {"table": ["Wavelength", "Sed"]}
            m.exact["ph[Wavelength]"] = {"num": Num(X.LAM, X.uof("wl"), True, "ph")}
            m.exact["ph[Sed]"] = M.n("ph[Sed]", wl=True, unit="W m-2 um-1", grid="ph")
            m.exact[TS + k] = M.n(TS + k, isq=False)

            def f(I, st):
                return I.call(task(I, "LoadSource", st), [], {"target": I.region("target"), "source": I.region("source"), "wl_range": Tup([I.region("lo"), I.region("hi")])}, st)
            stub = dict(phoenix_stub([]), **{"ext:astropy.io.ascii.read": lambda lib, nm, a, k, st, node: lib.I.region("ph"), "ext:os.path.exists": lambda lib, nm, a, k, st, node: Num(X.TRUE)})
            ctx.refuses("%s source of a star whose %s has no units" % (kind, k), LW, m, f, "the spectrum is estimated all the same", stub=stub)


def directory(ctx):
    """where the gridded models of a target are looked for: the directory its description names, else that of the environment"""
    for tag, named, env, want in (("named", True, None, "/models"), ("named, and another in the environment", True, "/env", "/models"), ("of the environment", False, "/env", "/env"), ("none", False, None, None)):
        name = "directory of the stellar models: " + tag
        m = phoenix_rules(target_rules(M.Model(1)))
        m.exact["source"] = {"keys": ["value"] + (["StellarModels"] if named else []), "dcls": "dict"}
        m.exact["source[StellarModels]"] = {"keys": ["value"]}
        m.exact["source[value]"] = {"str": "phoenix"}
        m.exact["source[StellarModels][value]"] = {"str": "/models"}
        m.exact["ph"] = {"table": ["Wavelength", "Sed"]}
        m.exact["ph[Wavelength]"] = {"num": Num(X.LAM, X.uof("wl"), True, "ph")}
        m.exact["ph[Sed]"] = M.n("ph[Sed]", wl=True, unit="W m-2 um-1", grid="ph")
        looked = []

        def getenv(lib, nm, a, k, st, node, env=env):
            if a and a[0] == "PHOENIX_PATH" and env is not None:
                return env
            return a[1] if len(a) > 1 else k.get("default")

        def ls(lib, nm, a, k, st, node):
            looked.append(a[0] if a else None)
            return lib.mklist(st, [DIR + "/" + n for n in NAMES])

        def f(I, st):
            return I.call(task(I, "LoadSource", st), [], {"target": I.region("target"), "source": I.region("source"), "wl_range": Tup([I.region("lo"), I.region("hi")])}, st)
        stub = dict(phoenix_stub([]))
        stub.update({"ext:os.environ.get": getenv, "ext:os.getenv": getenv, "ext:glob.glob": ls, "ext:os.path.exists": lambda lib, nm, a, k, st, node: Num(X.TRUE)})
        if want is None:
            ctx.refuses(name, LW, m, f, "models of no directory are read", stub=stub)
            continue
        if ctx.run(name, LW, m, f, stub=stub, total=None) is None:
            continue
        if not looked or not all(isinstance(x, str) for x in looked):
            ctx.res.und(name, LW, "looked for in %s" % (looked,))
        else:
            ctx.res.check(all(x == want or x.startswith(want + "/") for x in looked), name, LW, "looked for in %s where %s is required" % (looked, want))
