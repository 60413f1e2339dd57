"""Loads the package under analysis from source: modules, classes, imports."""
import ast
import os


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = node.name
        self.qual = (cls.qual + "." if cls else module.name + ".") + node.name
        self.decos = [deco_name(d) for d in node.decorator_list]
        self.is_static = "staticmethod" in self.decos
        self.is_class = "classmethod" in self.decos
        self.is_prop = any(d in ("property", "cached_property", "functools.cached_property") for d in self.decos)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return f"<{self.qual}>"

    @property
    def file(self):
        return self.module.rel

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def walk_own(fn):
    """Nodes of fn without nested function bodies."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return ast.unparse(d)


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.bases = [ast.unparse(b) for b in node.bases]
        self.decos = [deco_name(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split(".")[-1] == "dataclass" for d in self.decos)
        self.methods = {}
        self.attrs = {}
        self.fields = []  # dataclass fields (name, default node, annotation)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value, s.annotation))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src, filename=path)
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body)
                for h in getattr(s, "handlers", []):
                    pass
                if isinstance(s, ast.If):
                    self._collect(s.orelse)


EXT_CANON = {
    "numpy": "np",
    "pyarrow.compute": "pc",
    "pyarrow": "pa",
    "pyarrow.parquet": "pq",
    "pyarrow.dataset": "ds",
}


def canon_ext(dotted):
    for k in ("pyarrow.compute", "pyarrow.parquet", "pyarrow.dataset", "pyarrow", "numpy"):
        if dotted == k:
            return EXT_CANON[k]
        if dotted.startswith(k + "."):
            return EXT_CANON[k] + dotted[len(k):]
    return dotted


class Repo:
    def __init__(self, root="/repo/src", pkg="valor_lite"):
        self.root = root
        self.modules = {}
        for d, dirs, files in os.walk(os.path.join(root, pkg)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                self.modules[name] = Module(name, p, os.path.join("src", rel))

    def func(self, qual):
        """module.func or module.Class.method; None when absent."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                r = self.resolve(m, rest[0])
                return r if isinstance(r, Func) else None
            if len(rest) == 2:
                c = self.resolve(m, rest[0])
                if isinstance(c, Class):
                    return self.method(c, rest[1])
        return None

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            return None
        c = self.resolve(m, name)
        return c if isinstance(c, Class) else None

    def resolve(self, module, name, depth=0):
        """Func | Class | Module | ('ext', dotted) | ('const', node, module) | None"""
        if depth > 10:
            return None
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ("ext", canon_ext(imp[1]))
            _, base, nm = imp
            if base in self.modules:
                sub = base + "." + nm
                r = self.resolve(self.modules[base], nm, depth + 1)
                if r is not None:
                    return r
                if sub in self.modules:
                    return self.modules[sub]
                return None
            return ("ext", canon_ext(base + "." + nm))
        if name in module.consts:
            return ("const", module.consts[name], module)
        sub = module.name + "." + name
        if module.is_pkg and sub in self.modules:
            return self.modules[sub]
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            b = b.split("[")[0]
            r = self.resolve(c.module, b.split(".")[-1])
            if isinstance(r, Class) and r not in out:
                for x in self.mro(r):
                    if x not in out:
                        out.append(x)
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def is_enum(self, c):
        for k in self.mro(c):
            for b in k.bases:
                if b.split(".")[-1] in ("Enum", "IntFlag", "StrEnum", "IntEnum", "Flag"):
                    return True
        return False
