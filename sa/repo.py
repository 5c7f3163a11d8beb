"""Loads every module of the analysed package and resolves names, classes and imports."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "exorad"


class Broken(Exception):
    """the analysis cannot find what it analyses"""


class Module:
    def __init__(self, name, path, src=None):
        self.name, self.path = name, path
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        from .norm import normal
        self.tree = normal(ast.parse(self.src, path))
        self.is_pkg = path.endswith("__init__.py")
        self.imports = {}   # local name -> ('mod', dotted) | ('from', dotted, name)
        self.defs = {}
        self.classes = {}
        self.assigns = {}   # name -> [value expr]
        self._collect(self.tree.body)

    def pkg(self):
        return self.name if self.is_pkg else self.name.rsplit(".", 1)[0]

    def resolve_from(self, node):
        if node.level:
            base = self.pkg().split(".")
            base = base[: len(base) - (node.level - 1)]
            return ".".join(base + ([node.module] if node.module else []))
        return node.module or ""

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.add_import(s, self.imports)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s.name, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for fld in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, fld, []) or [])
                for h in getattr(s, "handlers", []):
                    self._collect(h.body)

    def add_import(self, s, table):
        if isinstance(s, ast.Import):
            for al in s.names:
                if al.asname:
                    table[al.asname] = ("mod", al.name)
                else:
                    table[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
        else:
            m = self.resolve_from(s)
            for al in s.names:
                table[al.asname or al.name] = ("from", m, al.name)


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.attrs = {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if s.name in self.methods and any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                    self.methods[s.name + "!set"] = s
                    continue
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        self._mro = None

    def __repr__(self):
        return "<%s.%s>" % (self.mod.name, self.name)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.ext = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise Broken("package directory %s not found" % base)
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in sorted(dn) if d != "__pycache__"]
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    try:
                        self.modules[rel] = Module(rel, p)
                    except SyntaxError as ex:
                        raise Broken("cannot parse %s: %s" % (p, ex))

    # ------------------------------------------------------------ harnesses
    def probed(self, src, ext=None, methods=None, classes=None):
        """a copy of the program with a harness module exorad._probe; ext: external name -> class or function of the harness;
        methods: 'Class.method' -> function of the harness that stands for it"""
        r = Repo(self.root)
        m = Module("exorad._probe", os.path.join(self.root, PKG, "_probe.py"), src)
        r.modules["exorad._probe"] = m
        for k, v in (ext or {}).items():
            r.ext[k] = ("class", m.classes[v]) if v in m.classes else ("def", m, m.defs[v])
        if "Screen" in m.classes and "logging.StreamHandler" not in r.ext:
            r.ext["logging.StreamHandler"] = ("class", m.classes["Screen"])
        for k, v in (methods or {}).items():
            c, _, f = k.partition(".")
            r.find_class(c).methods[f] = ast.parse("def %s(self, *a, **k):\n    from exorad._probe import %s\n    return %s(self, *a, **k)" % (f, v, v)).body[0]
        for k, v in (classes or {}).items():
            r.find_class(k).mod.classes[k] = m.classes[v]
        return r

    place = None     # the directory the program is taken to be installed in

    def placed(self, mod):
        m = self.modules.get(mod)
        return self.place + "/" + self.rel(m.path).replace(os.sep, "/") if self.place and m is not None else None

    def rel(self, path):
        return os.path.relpath(path, self.root)

    # ------------------------------------------------------------ resolution
    def lookup(self, mod, name, seen=()):
        """name in module namespace -> ('class',Class)|('def',Module,node)|('mod',name)|('ext',dotted)|('assign',Module,expr)|None"""
        m = self.modules.get(mod)
        if m is None or (mod, name) in seen:
            return None
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.defs:
            return ("def", m, m.defs[name])
        if name in m.assigns:
            return ("assign", m, m.assigns[name])
        if name in m.imports:
            return self.resolve_import(m.imports[name], seen + ((mod, name),))
        if mod + "." + name in self.modules:
            return ("mod", mod + "." + name)
        return None

    def resolve_import(self, imp, seen=()):
        if imp[0] == "mod":
            return ("mod", imp[1]) if imp[1] in self.modules else ("ext", imp[1])
        _, m, n = imp
        if m in self.modules:
            r = self.lookup(m, n, seen)
            if r is not None:
                return r
            if m + "." + n in self.modules:
                return ("mod", m + "." + n)
            return None
        x = m + "." + n if m else n
        return self.ext.get(x) or ("ext", x)

    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        r = self.lookup(mod, name)
        if not r or r[0] != "class":
            raise Broken("anchor class %s not found" % dotted)
        return r[1]

    def find_class(self, name):
        """a class by simple name, wherever it is defined"""
        out = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if len(out) != 1:
            raise Broken("anchor class %s: %d definitions" % (name, len(out)))
        return out[0]

    def find_def(self, name, prefer=None):
        out = [(m, m.defs[name]) for m in self.modules.values() if name in m.defs]
        if prefer:
            o = [x for x in out if x[0].name == prefer]
            out = o or out
        if len(out) != 1:
            raise Broken("anchor function %s: %d definitions" % (name, len(out)))
        return out[0]

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.lookup(c.mod.name, b.id)
            elif isinstance(b, ast.Attribute):
                r = None
                if isinstance(b.value, ast.Name):
                    q = self.lookup(c.mod.name, b.value.id)
                    if q and q[0] == "mod":
                        r = self.lookup(q[1], b.attr)
                    elif q and q[0] == "ext":
                        r = self.ext.get(q[1] + "." + b.attr)
            else:
                r = None
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def mro(self, c):
        if c._mro is None:
            seqs = [self.mro(b)[:] for b in self.bases(c)] + [self.bases(c)[:]]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                res.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        s.pop(0)
            c._mro = res
        return c._mro

    def repo_based(self, c):
        return any(k.mod.name != "exorad._probe" for k in self.mro(c))

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for k in mro:
            if name in k.methods:
                return k, k.methods[name]
        return None, None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def is_sub(self, c, name):
        return any(k.name == name for k in self.mro(c))

    def subclasses(self, name):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c.name != name and self.is_sub(c, name):
                    out.append(c)
        return out
