"""Index of the analysed program: modules, functions, classes, imports (Python, Cython and C++ alike)."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the rules rely on has vanished: the analysis cannot give a verdict."""


class Func:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = (cls.qual if cls else mod.name) + "." + node.name
        self.ctypes = getattr(node, "ctypes", {})
        self.argtypes = getattr(node, "argtypes", {})
        self.cfunc = getattr(node, "cfunc", False)
        self.noexcept = getattr(node, "noexcept", False)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        decos = [ast.unparse(d) for d in node.decorator_list]
        self.cached = any(d.split("(")[0].rsplit(".", 1)[-1] in ("cached_property", "lru_cache", "cache") for d in decos)
        self.is_property = "property" in decos or any(d.rsplit(".", 1)[-1] == "cached_property" for d in decos)
        self.is_classmethod = "classmethod" in decos
        self.is_static = "staticmethod" in decos
        self.is_abstract = any("abstractmethod" in d for d in decos)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        self._kernel = None

    @property
    def is_kernel(self):
        """contains a GIL-free or parallel section"""
        if self._kernel is None:
            self._kernel = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("__nogil__", "prange", "parallel")
                               for n in ast.walk(self.node))
        return self._kernel

    @property
    def file(self):
        return self.mod.relpath

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.name = node.name
        self.qual = mod.name + "." + node.name
        self.methods = {}
        self.attrs = {}
        self.fields = getattr(node, "fields", {})
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(mod, s, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if isinstance(s.annotation, ast.Constant):
                    self.fields[s.target.id] = s.annotation.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
        self.is_cclass = getattr(node, "cclass", False)

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, relpath, tree):
        self.name, self.path, self.relpath, self.tree = name, path, relpath, tree
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        self.stars = []
        self._collect(tree.body, pkg)

    def _collect(self, body, pkg):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = resolve_from(s, pkg)
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body, pkg)
                for h in getattr(s, "handlers", []):
                    pass
                self._collect(s.orelse, pkg)


def resolve_from(s, pkg):
    if s.level:
        parts = pkg.split(".")
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))
    return s.module or ""


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        self.files = []
        self._load()
        self._mro = {}

    def _load(self):
        root = os.path.join(self.repo, "implicit")
        if not os.path.isdir(root):
            raise AnalysisBroken("no implicit package in " + self.repo)
        from . import frontend_cy
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith((".py", ".pyx")):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel.rsplit(".", 1)[0].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, "rb") as fh:
                    src = fh.read()
                self.digest.update(rel.encode() + b"\0" + src + b"\0")
                self.files.append(rel)
                tree = frontend_cy.lower(p) if f.endswith(".pyx") else ast.parse(src, p)
                if name in self.modules and f.endswith(".py"):
                    pass
                self.modules[name] = Module(name, p, rel, tree)
        self._cpp = None

    @property
    def cpp(self):
        if self._cpp is None:
            from . import frontend_cpp
            nodes = frontend_cpp.lower(self.repo)
            out = {}
            for hdr in ("implicit/cpu/select.h", "implicit/nearest_neighbours.h"):
                p = os.path.join(self.repo, hdr)
                if not os.path.exists(p):
                    raise AnalysisBroken("missing " + hdr)
                self.digest.update(open(p, "rb").read())
            tree = ast.Module(body=list(nodes.values()), type_ignores=[])
            self._cpp = Module("implicit.native", os.path.join(self.repo, "implicit/nearest_neighbours.h"), "implicit/nearest_neighbours.h", tree)
            if "select" in self._cpp.funcs:
                self._cpp.funcs["select"].mod = m2 = Module("implicit.native_select", os.path.join(self.repo, "implicit/cpu/select.h"), "implicit/cpu/select.h", ast.Module(body=[], type_ignores=[]))
                m2.funcs = self._cpp.funcs
            self.files += ["implicit/cpu/select.h", "implicit/nearest_neighbours.h"]
        return self._cpp

    # ---- lookups
    def func(self, qual):
        f = self.find_func(qual)
        if f is None:
            raise AnalysisBroken("function %s not found" % qual)
        return f

    def find_func(self, qual):
        mod, _, name = qual.rpartition(".")
        if qual.startswith("implicit.native."):
            m = self.cpp
            if mod == "implicit.native":
                return m.funcs.get(name)
            k = m.classes.get(mod.rpartition(".")[2])
            return k.methods.get(name) if k else None
        if mod in self.modules:
            m = self.modules[mod]
            if name in m.funcs:
                return m.funcs[name]
            return None
        m2, _, cls = mod.rpartition(".")
        if m2 in self.modules and cls in self.modules[m2].classes:
            return self.modules[m2].classes[cls].methods.get(name)
        return None

    def find_class(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.cpp if mod == "implicit.native" else self.modules.get(mod)
        return m.classes.get(name) if m else None

    def cls(self, qual):
        c = self.find_class(qual)
        if c is None:
            raise AnalysisBroken("class %s not found" % qual)
        return c

    def resolve(self, dotted):
        """dotted global name -> Func | Class | Module | None, following re-exports"""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            if dotted in self.modules:
                return self.modules[dotted]
            mod, _, name = dotted.rpartition(".")
            m = self.modules.get(mod)
            if m is None:
                # maybe Class.method
                c = self.find_class(mod)
                if c and name in c.methods:
                    return c.methods[name]
                # maybe attribute reached through a re-export
                r = self.resolve(mod) if "." in mod else None
                if isinstance(r, Module) and r.name != mod:
                    dotted = r.name + "." + name
                    continue
                return None
            if name in m.funcs:
                return m.funcs[name]
            if name in m.classes:
                return m.classes[name]
            if name in m.imports:
                dotted = m.imports[name]
                continue
            if name in m.consts and isinstance(m.consts[name], (ast.Attribute, ast.Name)):
                parts = ast.unparse(m.consts[name]).split(".")
                if parts[0] in m.imports:
                    dotted = ".".join([m.imports[parts[0]]] + parts[1:])
                    continue
            return None
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            parts = ast.unparse(b).split(".")
            m = cls.mod
            if parts[0] in m.classes and len(parts) == 1:
                out.append(m.classes[parts[0]])
            elif parts[0] in m.imports:
                r = self.resolve(".".join([m.imports[parts[0]]] + parts[1:]))
                if isinstance(r, Class):
                    out.append(r)
        return out

    def mro(self, cls):
        if cls.qual not in self._mro:
            out = [cls]
            for b in self.bases(cls):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            self._mro[cls.qual] = out
        return self._mro[cls.qual]

    def method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, qual):
        base = self.cls(qual)
        return [c for m in self.modules.values() for c in m.classes.values() if base in self.mro(c)]

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()
