"""Parses /repo/festim and resolves names, classes and methods (no import)."""
import ast
import os


class FuncInfo:
    def __init__(self, node, module, cls, kind="func"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.bases = []  # resolved: ClassInfo or str (external dotted)
        self.methods = {}
        self.getters, self.setters = {}, {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "func"
                pr = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                        kind = d.id
                    elif isinstance(d, ast.Name) and d.id == "property":
                        pr = "get"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        pr = "set"
                    elif "cached_property" in ast.dump(d):
                        pr = "get"
                fi = FuncInfo(s, module, self, kind)
                if pr == "get":
                    self.getters[s.name] = fi
                elif pr == "set":
                    self.setters[s.name] = fi
                else:
                    self.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # x = property(getter, setter)
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                            a = list(v.args)
                            if a and isinstance(a[0], ast.Name) and a[0].id in self.methods:
                                self.getters[t.id] = self.methods[a[0].id]
                            if len(a) > 1 and isinstance(a[1], ast.Name) and a[1].id in self.methods:
                                self.setters[t.id] = self.methods[a[1].id]
                        else:
                            self.consts[t.id] = v
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.names = {}  # name -> binding
        self.stars = []


BUILTIN_EXT = {"fenics": "fenics", "dolfin": "fenics", "ufl": "fenics", "numpy": "np", "sympy": "sp"}


class Program:
    def __init__(self, root="/repo", pkg="festim", extra=()):
        self.root, self.pkg = root, pkg
        self.modules, self.classes, self.errors = {}, {}, []
        base = os.path.join(root, pkg)
        files = []
        for d, ds, fs in os.walk(base):
            ds.sort()
            for fn in sorted(fs):
                if fn.endswith(".py"):
                    files.append(os.path.join(d, fn))
        for p in files:
            rel = os.path.relpath(p, root)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            self._load(name, p, rel, open(p).read())
        for name, src in extra:
            self._load(name, "<spec>", "spec/" + name, src)
        for m in self.modules.values():
            self._bind(m)
        for c in list(self.classes.values()):
            self._bases(c)

    def _load(self, name, p, rel, src):
        tree = ast.parse(src, p)
        self.modules[name] = Module(name, p, rel, tree, src)

    def _bind(self, m):
        def handle(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        nm = a.asname or a.name.split(".")[0]
                        tgt = a.name if a.asname else a.name.split(".")[0]
                        m.names[nm] = ("mod", tgt)
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ""
                    if s.level:
                        basep = m.name.split(".")
                        if not m.path.endswith("__init__.py"):
                            basep = basep[:-1]
                        basep = basep[: len(basep) - (s.level - 1)]
                        mod = ".".join(basep + ([mod] if mod else []))
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(mod)
                        else:
                            m.names[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s, m)
                    m.names[s.name] = ("class", c)
                    self.classes.setdefault(s.name, c)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.names[s.name] = ("func", FuncInfo(s, m, None))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ("const", s.value)
                        elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Call):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    m.names[e.id] = ("tupconst", s.value, i)
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ("const", s.value)
                elif isinstance(s, ast.Try):
                    handle(s.body)
                elif isinstance(s, ast.If):
                    handle(s.body)
                    handle(s.orelse)
        handle(m.tree.body)

    def resolve(self, m, name, depth=0):
        """binding of a global name in module m (normalised)"""
        if depth > 12:
            return None
        b = m.names.get(name)
        if b is None:
            for st in m.stars:
                if st in self.modules:
                    r = self.resolve(self.modules[st], name, depth + 1)
                    if r is not None:
                        return r
            for st in m.stars:
                if st.split(".")[0] in BUILTIN_EXT:
                    return ("ext?", BUILTIN_EXT[st.split(".")[0]] + "." + name)
            return None
        if b[0] == "from":
            mod = b[1]
            if mod in self.modules:
                r = self.resolve(self.modules[mod], b[2], depth + 1)
                if r is not None:
                    return r
                if mod + "." + b[2] in self.modules:
                    return ("mod", mod + "." + b[2])
                return None
            top = mod.split(".")[0]
            return ("ext", BUILTIN_EXT.get(top, mod) + "." + b[2])
        if b[0] == "const":
            return ("const", b[1], m)
        if b[0] == "tupconst":
            return ("tupconst", b[1], b[2], m)
        return b

    def _bases(self, c):
        c.bases = []
        for b in c.node.bases:
            c.bases.append(self._base(b, c.module))

    def _base(self, b, m):
        if isinstance(b, ast.Name):
            r = self.resolve(m, b.id)
            if r and r[0] == "class":
                return r[1]
            if r and r[0] == "const" and isinstance(r[1], ast.Name):
                return self._base(r[1], r[2])
            if r and r[0] in ("ext", "ext?"):
                return r[1]
            return b.id
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            r = self.resolve(m, b.value.id)
            if r and r[0] == "mod":
                if r[1] in self.modules:
                    r2 = self.resolve(self.modules[r[1]], b.attr)
                    if r2 and r2[0] == "class":
                        return r2[1]
                return BUILTIN_EXT.get(r[1], r[1]) + "." + b.attr
        return ast.unparse(b)

    def mro(self, c):
        out = []

        def rec(x):
            if isinstance(x, str):
                if x not in out:
                    out.append(x)
                return
            if x in out:
                return
            out.append(x)
            for b in x.bases:
                rec(b)
        rec(c)
        return out

    def find_method(self, c, name, after=None):
        """FuncInfo of method name in class c (after: skip up to that class)"""
        skip = after is not None
        for k in self.mro(c):
            if skip:
                if k is after:
                    skip = False
                continue
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def find_prop(self, c, name, which="getters"):
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                if name in getattr(k, which):
                    return getattr(k, which)[name]
                if which == "getters" and name in k.methods:
                    return None
        return None

    def is_subclass(self, a, b):
        """names; b may be external"""
        if a == b:
            return True
        ca = self.classes.get(a)
        if ca is None:
            return False
        for k in self.mro(ca):
            if (k if isinstance(k, str) else k.name) == b:
                return True
        return False

    def subclasses(self, name):
        return [c for c in self.classes if self.is_subclass(c, name)]

    def common(self, a, b):
        """can one object be an instance of both classes"""
        if self.is_subclass(a, b) or self.is_subclass(b, a):
            return True
        sa = set(self.subclasses(a))
        sb = set(self.subclasses(b))
        return bool(sa & sb)
