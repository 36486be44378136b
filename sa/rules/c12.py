"""C12: native code stays inside the arrays and buffers it was given."""
import ast

from .. import api
from .. import bounds as B
from .. import model as M
from .. import native as NV
from ..terms import cval, is_const, mk, walk

MINIMUM = {"accesses": 10, "buffers": 5}

# argument positions: counts, vectors (pointer, increment), matrices (pointer, leading dimension)
BLAS = {
    "axpy": dict(n=0, vec=((2, 3), (4, 5))),
    "dot": dict(n=0, vec=((1, 2), (3, 4))),
    "scal": dict(n=0, vec=((2, 3),)),
    "copy": dict(n=0, vec=((1, 2), (3, 4))),
    "nrm2": dict(n=0, vec=((1, 2),)),
    "symv": dict(n=1, vec=((5, 6), (8, 9)), mat=((3, 4),)),
    "posv": dict(n=1, mat=((3, 4),), rhs=((5, 6, 2),)),
    "gesv": dict(n=0, mat=((2, 3),), rhs=((5, 6, 1),), piv=4),
    "syr": dict(n=1, vec=((3, 4),), mat=((5, 6),)),
}
WIDE = ("size_t", "long", "ssize_t", "Py_ssize_t", "int64", "intptr", "ptrdiff")
NARROW = ("int", "unsigned int", "integral", "int32_t", "uint32_t", "short", "unsigned")


def check(ctx):
    proj = ctx.proj
    ctx.rule("index", "every unchecked subscript of a typed array, pointer or native vector is below its size, from the sizes and checks on the path that reaches it")
    ctx.rule("buffer", "the amounts given to BLAS, LAPACK, memcpy and memset fit the rows and scratch buffers they are used on")
    ctx.rule("overflow", "offsets and sizes that grow with the number of rows are computed in 64 bits")
    ctx.rule("select", "the native selection is given a batch and outputs as large as it reads and writes")
    ctx.assume("sparse matrices are well formed (scipy's invariants); factor matrices are C contiguous with the same number of columns as allocated by fit")
    lim = limits(ctx)
    c = Checker(ctx, lim)
    # kernels that are safe whatever they are given need not be followed from every caller
    for f in NV.kernels(proj):
        if f.cls is None and not f.cfunc and not typed(f):
            own = Checker(ctx, lim)
            own.memo = c.memo
            own.quiet = True
            own.entry(f, None)
            if not own.failures and own.proofs:
                c.safe.add(f.qual)
                ctx.saw("kernels safe for any arguments", f.qual)
    for k in api.model_classes(proj):
        if api.is_gpu(k):
            continue
        for n, f in sorted(api.all_methods(proj, k).items()):
            if f.is_abstract or n.startswith("_") and n != "__init__":
                continue
            if not reaches_native(ctx, k, f):
                continue
            c.entry(f, k)
    for f in NV.kernels(proj):
        if f.cls is None and not f.name.startswith("_") and not f.cfunc and not typed(f) and not f.qual.startswith("implicit.cpu.") and f.qual not in c.safe:
            c.entry(f, None)
    scorer(ctx, c)
    c.natives()
    for f in NV.kernels(proj) + natives(proj):
        overflow(ctx, f)


def typed(f):
    return any("[" in str(t) or "*" in str(t) for t in f.argtypes.values())


def natives(proj):
    m = proj.cpp
    return list(m.funcs.values()) + [g for k in m.classes.values() for g in k.methods.values()]


def reaches_native(ctx, k, f):
    """cheap filter: entry points from which code of an extension module can be called"""
    seen, work = set(), [f]
    proj = ctx.proj
    while work:
        g = work.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        if g.mod.relpath.endswith(".pyx"):
            return True
        for n in ast.walk(g.node):
            name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if name is None:
                continue
            h = proj.method(k, name) if isinstance(n, ast.Attribute) else None
            if h is not None:
                work.append(h)
            for m in proj.modules.values():
                if name in m.funcs and not m.name.startswith("implicit.gpu"):
                    if m.relpath.endswith(".pyx"):
                        return True
                    if m is g.mod:
                        work.append(m.funcs[name])
    return False


# -- native helper classes: sizes of their vectors, from their constructors and updates

class Limits:
    def __init__(self):
        self.exact = {}     # (class, vector field) -> ("param", position) of the constructor
        self.most = {}      # (class, vector field) -> position of the constructor argument that bounds it
        self.columns = {}   # class -> number of columns fit gives to its factors
        self.local = {}     # (function, vector name) -> parameter name that bounds it
        self.needs = {}     # (class or "", function) -> [(kind, what, polynomial over parameters)]


def limits(ctx):
    L = Limits()
    cpp = ctx.proj.cpp
    for cname, k in cpp.classes.items():
        init = k.methods.get("__init__")
        fields = {}
        if init is not None:
            params = [p for p in init.params if p != "self"]
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
                    fld, v = n.targets[0].attr, n.value
                    if isinstance(v, ast.Name) and v.id in params:
                        fields[fld] = params.index(v.id)
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__construct__" and "vector" in str(k.fields.get(fld)):
                        if v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in params:
                            L.exact[(cname, fld)] = params.index(v.args[0].id)
                        elif not v.args:
                            L.exact.setdefault((cname, fld), None)
        for f in k.methods.values():
            for vec, bound in bounded_pushes(ctx, f, k):
                if vec.op == "attr" and vec.a[0].op == "self" and bound is not None and bound[0].op == "attr" and bound[0].a[0].op == "self" and bound[0].a[1] in fields:
                    L.most[(cname, vec.a[1])] = (fields[bound[0].a[1]], bound[1])
                else:
                    L.most[(cname, vec.a[1] if vec.op == "attr" else "?")] = None
    for f in cpp.funcs.values():
        for vec, bound in bounded_pushes(ctx, f, None):
            L.local[(f.qual, vec)] = bound
    return L


def bounded_pushes(ctx, f, k):
    """[(vector, bound or None)]: additions happen only below the bound, or after removing an element"""
    has = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("push_back", "emplace_back") for n in ast.walk(f.node))
    if not has:
        return []
    out = {}

    def hook(st, kind, node, d):
        if kind != "mut" or not str(d[1]).startswith((".push_back", ".emplace_back", ".pop_back")):
            return
        v = M.ident(d[0])
        key = ("pops", v)
        if str(d[1]).startswith(".pop_back"):
            st.ver[mk("popped", v)] = 1
            return
        bound = None
        for a, val in st.facts.items():
            if a.op == "cmp" and a.a[0] in ("<", "<="):
                l, r = strip(a.a[1]), strip(a.a[2])
                if val and is_size(l, v):            # size < r or size <= r
                    b = (r, 0 if a.a[0] == "<" else 1)
                elif not val and is_size(r, v):      # size <= l or size < l
                    b = (l, 1 if a.a[0] == "<" else 0)
                else:
                    continue
                if bound is None or b[1] < bound[1]:
                    bound = b
        if bound is None and st.ver.pop(mk("popped", v), None):
            out.setdefault(v, set()).add("pop")
        else:
            out.setdefault(v, set()).add(bound)

    e, _ = NV.run(ctx, f, k, opaque=set(), hook=hook, traced=False)
    res = []
    for v, bs in out.items():
        bs.discard("pop")
        names = {b[0] if b is not None else None for b in bs}
        res.append((v, (next(iter(names)), max(b[1] for b in bs)) if len(names) == 1 and None not in names else None))
    return res


def strip(t):
    return NV.strip_casts(t)


def is_size(t, v):
    return t.op == "meth" and t.a[1] == "size" and M.ident(t.a[0]) is v


class NativeSizes(B.Sizes):
    def __init__(self, lim, **kw):
        super().__init__(**kw)
        self.lim = lim
        self.pushed = {}
        self.state = None

    def owner(self, v):
        """(class, constructor arguments, field) of a vector that is a field of a native object"""
        v = M.ident(v)
        if v in self.alias:
            v = self.alias[v]
        if v.op != "attr":
            return None
        o = M.ident(v.a[0])
        o = self.alias.get(o, o)
        if o.op == "alloc" and o.a[0].startswith("new:"):
            c = o.a[0][4:].split("<")[0].rsplit(".", 1)[-1].rsplit("::", 1)[-1]
            return c, o.a[1], v.a[1]
        return None

    def size(self, v):
        n = self.state.ver.get(mk("filled", M.ident(v))) if self.state is not None else None
        if n is not None:
            return self.poly(n)
        o = self.owner(v)
        if o is not None:
            i = self.lim.exact.get((o[0], o[2]))
            if i is not None and i < len(o[1]):
                return self.poly(o[1][i])
        return super().size(v)

    def limits(self, v):
        o = self.owner(v)
        if o is not None:
            i = self.lim.most.get((o[0], o[2]))
            if i is not None and i[0] < len(o[1]):
                return (B.add(self.poly(o[1][i[0]]), B.num(i[1])),)
        for (q, x), b in self.lim.local.items():
            if x is v and b is not None:
                return (B.add(self.poly(b[0]), B.num(b[1])),)
        return ()

    def upper(self, a):
        if a.op == "callv":
            f = strip(a.a[0])
            if f.op == "sub":
                v = self.pushed.get(M.ident(f.a[0]))
                if v is not None and v.op in ("callv", "call", "alloc"):
                    args = v.a[1]
                    if len(args) == 2:
                        return [self.poly(args[1])]
        return super().upper(a)


def ctype(func, node, ctx):
    """C type of the expression under a subscript"""
    if isinstance(node, ast.Name):
        return func.ctypes.get(node.id) or func.argtypes.get(node.id)
    if isinstance(node, ast.Attribute):
        if isinstance(node.value, ast.Name) and node.value.id == "self" and func.cls is not None:
            return getattr(func.cls, "fields", {}).get(node.attr)
        t = ctype(func, node.value, ctx)
        if t:
            n = str(t).replace("*", "").replace("&", "").split("<")[0].strip().rsplit("::", 1)[-1]
            k = ctx.proj.cpp.classes.get(n) or func.mod.classes.get(n)
            if k is not None:
                return getattr(k, "fields", {}).get(node.attr)
    return None


def unchecked(func):
    """memory views of this function are indexed without bounds checks"""
    for d in func.node.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("boundscheck"):
            return not (d.args and isinstance(d.args[0], ast.Constant) and d.args[0].value)
    return bool(getattr(func.mod, "directives", {}).get("boundscheck") is False)


class Checker:
    def __init__(self, ctx, lim):
        self.ctx, self.lim = ctx, lim
        self.reported = set()
        self.done = {}
        self.seen = set()
        self.memo = {}
        self.safe = set()
        self.quiet = False
        self.failures = 0

    def entry(self, f, cls, alias=None, square=None, given=()):
        ctx = self.ctx
        self.given = dict(given)
        S = NativeSizes(self.lim, alias=alias)
        if cls is not None:
            if cls.qual not in self.lim.columns:
                self.lim.columns[cls.qual] = columns(ctx, cls, S)
            S.equal.update(self.lim.columns[cls.qual])
        if square is not None:
            S.equal[mk("dim", square, 1)] = {(mk("dim", square, 0),): 1}
        self.S, self.cls, self.where = S, cls, f
        self.ranges = {}
        self.parallel = {}
        self.proofs = {}
        self.factcache = {}
        self.e = None
        S.kind = lambda t: None

        def hook(st, kind, node, d):
            if kind == "access":
                self.access(st, node, d[0], d[1])
            elif kind == "loop":
                self.ranges[d[0]] = d[1]
            elif kind == "call":
                self.call(st, node, d)
            elif kind == "mut" and str(d[1]).startswith((".push_back", ".emplace_back")):
                self.push(st, node, d)

        NV.run(ctx, f, cls, opaque=self.safe, hook=hook, traced=False)

    # -- vectors filled in a loop

    def push(self, st, node, d):
        v = M.ident(d[0])
        val = d[3]
        if val.op == "meth" and val.a[2]:
            self.S.pushed[v] = val.a[2][0]
        loops = [c[1] for c in st.ctx if c[0] == "loop"]
        if len(loops) >= 1:
            r = self.ranges.get(loops[-1])
            if r is not None and r.op == "range" and unconditional(st.frames[-1].func, node):
                st.ver[mk("filled", v)] = mk("bin", "-", r.a[1], r.a[0])

    def threads(self, st):
        self.S.threads = None
        self.S.state = st
        for c in st.ctx:
            if c[0] == "with" and c[1].op in ("call", "alloc") and str(c[1].a[0]).endswith("parallel"):
                k = dict(c[1].a[2]).get("num_threads")
                if k is None or is_const(k) and cval(k) in (0, None):
                    self.S.threads = {(mk("team", "OpenMP's default number of threads"),): 1}
                else:
                    self.S.threads = self.S.poly(k)

    # -- subscripts

    def access(self, st, node, b, i):
        f = st.frames[-1].func
        if not (f.mod.relpath.endswith(".pyx") or f.qual.startswith("implicit.native.")):
            return
        ct = str(ctype(f, node.value, self.ctx) or "")
        if not ct:
            return
        mem = "[" in ct and ":" in ct
        ptr = ct.rstrip().endswith("*")
        vec = "vector<" in ct
        if not (mem or ptr or vec):
            return
        if ptr and M.ident(b).op == "alloc" and M.ident(b).a[0].startswith("new:"):
            return
        if mem and not unchecked(f):
            self.ctx.saw("checked accesses", "%s:%d" % (f.qual, node.lineno))
            return
        self.ctx.saw("accesses", "%s:%s" % (f.qual, ast.unparse(node)[:60]))
        self.threads(st)
        parts = i.a[0] if i.op == "tuple" else (i,)
        if any(x.op == "slice" for x in parts):
            return
        addr = getattr(node, "_is_addr", False)
        S = self.S
        extra = self.advance(st, f, node)
        if mem:
            for k, x in enumerate(parts):
                need = B.add(S.poly(x), extra.get(k, {}))
                if addr and not need:
                    continue
                if not (addr and k == len(parts) - 1):
                    need = B.add(need, B.num(1))
                self.prove(st, f, node, S.dim(b, k), need, "index", "%s along axis %d" % (ast.unparse(node), k))
        elif vec:
            need = B.add(B.add(S.poly(parts[0]), extra.get(0, {})), B.num(0 if addr else 1))
            self.prove(st, f, node, [S.size(b)], need, "index", ast.unparse(node))
        elif ptr:
            need = B.add(B.add(S.poly(parts[0]), extra.get(0, {})), B.num(0 if addr else 1))
            self.region(st, f, node, b, need, ct, "index", ast.unparse(node))

    def advance(self, st, f, node):
        """an index that is moved on by one in every iteration of the loop it is used in ends up that much further"""
        parts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        out = {}
        for k, x in enumerate(parts):
            for n in ast.walk(x):
                if isinstance(n, ast.Name):
                    it = moved_in(f, node, n.id)
                    if it is None:
                        continue
                    sids = [c[1] for c in st.ctx if c[0] == "loop"]
                    if sids:
                        r = self.ranges.get(sids[-1])
                        if r is None:
                            continue
                        if r.op == "range":
                            n_ = B.add(self.S.poly(r.a[1]), self.S.poly(r.a[0]), -1)
                        elif r.op == "while":
                            continue
                        else:
                            n_ = self.S.size(r)
                        out[k] = B.add(n_, B.num(1), -1)
        return out

    # -- regions of memory behind a pointer

    def region(self, st, f, node, t, need, ct, rule, what):
        S = self.S
        t = M.ident(t)
        while t.op == "cast":
            t = M.ident(t.a[-1])
        if t.op == "bin" and t.a[0] in ("+", "-"):
            l, r = t.a[1], t.a[2]
            if t.a[0] == "+" and not pointerish(l) and pointerish(r):
                l, r = r, l
            if pointerish(l):
                return self.region(st, f, node, l, B.add(need, S.poly(r), 1 if t.a[0] == "+" else -1), ct, rule, what)
        elem = str(ct).replace("const", "").replace("*", "").strip() or "floating"
        if t.op == "addr" and t.a[1] is not None:
            return self.prove(st, f, node, [B.num(1)], need, rule, what)
        if t.op == "addr" and t.a[0].op == "sub":
            m, i = t.a[0].a[0], t.a[0].a[1]
            parts = i.a[0] if i.op == "tuple" else (i,)
            k = len(parts) - 1
            sizes = [B.add(d, S.poly(parts[-1]), -1) for d in S.dim(m, k)]
            if k and all(is_const(x) and cval(x) == 0 for x in parts):
                whole = [B.mul(a, b) for a in S.dim(m, 0) for b in S.dim(m, 1)]
                sizes = whole
            return self.prove(st, f, node, sizes, need, rule, what)
        if t.op in ("alloc", "call") and str(t.a[0]).endswith(("malloc", "calloc")):
            by = S.poly(t.a[1][0])
            if str(t.a[0]).endswith("calloc") and len(t.a[1]) > 1:
                by = B.mul(by, S.poly(t.a[1][1]))
            size = S.poly(mk("sizeof", elem))
            return self.prove(st, f, node, [by], B.mul(need, size), rule, what)
        if t.op == "param" and f.qual.startswith("implicit.native."):
            self.requirement(f, t, need)
            return
        self.ctx.saw("not_understood", "%s: memory behind %s" % (f.qual, str(t)[:60]))

    def requirement(self, f, t, need):
        """what a native helper needs of its caller, in terms of its parameters only"""
        S = self.S
        work, n = [need], 0
        while work and n < 60:
            p = work.pop(0)
            n += 1
            ups = [(m, i, u) for m in p for i, a in enumerate(m) for u in S.upper(a) if p[m] > 0]
            if not ups:
                if all(a.op == "param" for m in p for a in m):
                    self.lim.needs.setdefault(f.qual, []).append((t.a[0], p))
                else:
                    self.ctx.saw("not_understood", "%s: needs %s of %s" % (f.qual, B.show(p)[:80], t.a[0]))
                return
            m, i, u = ups[0]
            h = B.add(p, {m: -p[m]})
            work.append(B.add(h, B.mul({m[:i] + m[i + 1:]: p[m]}, u)))

    # -- calls with counts

    def call(self, st, node, d):
        f = st.frames[-1].func
        name = str(d[0])
        short = name.rsplit(".", 1)[-1]
        S = self.S
        if not (f.mod.relpath.endswith(".pyx") or f.qual.startswith("implicit.native.")):
            return
        if name.startswith(("scipy.linalg.cython_blas.", "scipy.linalg.cython_lapack.")):
            spec = BLAS.get(short[1:])
            args = d[1][0]
            if spec is None:
                self.ctx.saw("not_understood", "%s: %s" % (f.qual, name))
                return
            self.threads(st)
            v = lambda k: S.poly(value(args[k]))  # noqa: E731
            n = v(spec["n"])
            call = caller(st, node)
            for p, inc in spec.get("vec", ()):
                need = n if is_one(args[inc]) else B.add(B.mul(B.add(n, B.num(1), -1), v(inc)), B.num(1))
                self.buffer(st, call, args[p], need, short, p)
            for p, ld in spec.get("mat", ()):
                self.buffer(st, call, args[p], B.add(B.mul(B.add(n, B.num(1), -1), v(ld)), n), short, p)
            for p, ld, k in spec.get("rhs", ()):
                self.buffer(st, call, args[p], B.add(B.mul(B.add(v(k), B.num(1), -1), v(ld)), n), short, p)
            if "piv" in spec:
                self.buffer(st, call, args[spec["piv"]], n, short, spec["piv"], "int")
        elif name in ("libc.string.memcpy", "libc.string.memmove", "libc.string.memset"):
            args = d[1][0]
            by = S.poly(args[2])
            size = element(by)
            if size is None:
                self.ctx.saw("not_understood", "%s: %s of %s bytes" % (f.qual, short, B.show(by)))
                return
            elem, count = size
            call = caller(st, node)
            for k in ((0, 1) if short != "memset" else (0,)):
                self.buffer(st, call, args[k], count, short, k, elem)
        elif name.startswith("method:"):
            recv, args = d[1][0], d[1][1]
            self.method(st, node, f, recv, short.split(":")[-1], args)
        else:
            self.helper(st, node, f, short, d)

    def buffer(self, st, call, t, need, short, k, elem="floating"):
        f, node = call
        self.ctx.saw("buffers", "%s:%d %s argument %d" % (f.qual, node.lineno, short, k))
        self.region(st, f, node, t, need, elem + " *", "buffer", "argument %d of %s" % (k + 1, short))

    def method(self, st, node, f, recv, name, args):
        """methods of native helper classes that subscript their vectors by an argument"""
        o = M.ident(recv)
        o = self.S.alias.get(o, o)
        if not (o.op == "alloc" and o.a[0].startswith("new:")):
            return
        c = o.a[0][4:].split("<")[0].rsplit("::", 1)[-1]
        k = self.ctx.proj.cpp.classes.get(c)
        g = k.methods.get(name) if k is not None else None
        if g is None:
            return
        for field, p in indexed_by(g):
            i = self.lim.exact.get((c, field))
            pos = [x for x in g.params if x != "self"].index(p)
            if i is None or pos >= len(args):
                continue
            self.threads(st)
            self.ctx.saw("accesses", "%s:%s.%s(%s)" % (f.qual, c, name, p))
            need = B.add(self.S.poly(args[pos]), B.num(1))
            self.prove(st, f, node, [self.S.poly(o.a[1][i])], need, "index", "%s.%s(%s) uses it to subscript %s" % (c, name, ast.unparse(node.args[pos]) if isinstance(node, ast.Call) and pos < len(node.args) else p, field))

    def helper(self, st, node, f, short, d):
        for q, g in self.ctx.proj.cpp.funcs.items():
            if g.name != short:
                continue
            args = d[1][0] if isinstance(d[1], tuple) and d[1] and isinstance(d[1][0], tuple) else ()
            if args and isinstance(args[0], tuple) and len(args[0]) == 2 and isinstance(args[0][0], str):
                env = dict(d[1])
            else:
                env = dict(zip(g.params, args))
            if set(env) >= set(g.params):
                self.pending = getattr(self, "pending", [])
                self.helper_call(st, f, node, g, env)

    def helper_call(self, st, f, node, g, env):
        if g.qual not in self.memo:
            self.memo[g.qual] = True
            sub = Checker(self.ctx, self.lim)
            sub.reported = self.reported
            sub.memo = self.memo
            sub.entry(g, None)
        for p, need in self.lim.needs.get(g.qual, ()):
            n = {}
            for m, c in need.items():
                t = B.num(c)
                for a in m:
                    t = B.mul(t, self.S.poly(env[a.a[0]]))
                n = B.add(n, t)
            self.ctx.saw("buffers", "%s:%d %s argument %s" % (f.qual, node.lineno, g.name, p))
            ct = str(g.argtypes.get(p, "")).replace("const", "").replace("float", "floating")
            self.region(st, f, node, env[p], n, ct, "select", "argument %s of %s" % (p, g.name))

    def natives(self):
        for g in natives(self.ctx.proj):
            if g.name.startswith("__"):
                continue
            if g.qual in self.memo:
                continue
            self.memo[g.qual] = True
            sub = Checker(self.ctx, self.lim)
            sub.reported = self.reported
            sub.memo = self.memo
            if g.cls is None:
                sub.entry(g, None)

    # -- deciding one obligation

    def prove(self, st, f, node, sizes, need, rule, what):
        ctx, S = self.ctx, self.S
        ctx.obligation(rule, "%s:%d %s" % (f.qual, node.lineno, what[:80]))
        key = (id(node), what, tuple(frozenset(s.items()) for s in sizes), frozenset(need.items()), None if S.threads is None else frozenset(S.threads.items()))
        known = self.proofs.setdefault(key, [])
        for full in st.full_facts():
            if self.given:
                full = {**self.given, **full}
            if any(all(full.get(k) == v for k, v in core) for core in known):
                continue
            fk = frozenset(full.items())
            facts = self.factcache.get(fk)
            if facts is None:
                facts = self.factcache[fk] = S.facts(full)
            left = None
            for s in sizes:
                ok, used, rest = S.nonneg(B.add(s, need, -1), facts)
                if ok:
                    known.append(frozenset((k, full[k]) for k in used))
                    break
                if ok is False:
                    left = (left or []) + rest
                else:
                    left = (left or []) + [None]
            else:
                if (key, "bad") in self.proofs:
                    continue
                self.proofs[(key, "bad")] = []
                self.failed(st, f, node, sizes, need, rule, what, left, full)

    def failed(self, st, f, node, sizes, need, rule, what, left, full):
        ctx = self.ctx
        self.failures += 1
        if self.quiet:
            return
        worst = [g for g in left if g is not None]
        const = [g for g in worst if set(g) <= {()} and g.get((), 0) < 0]
        plain = [g for g in worst if all(base(a, self.S, f) for m in g for a in m)]
        k = "%s:%s" % (f.qual, what)
        if None in left or not (const or plain) or not const and any(not base(a, self.S, f) for g in worst for m in g if g[m] < 0 for a in m) and not plain:
            ctx.saw("not_understood", "%s: %s" % (k[:120], "; ".join(B.show(g)[:100] for g in worst[:2])))
            return
        g = (const or sorted(plain, key=lambda g: (len(g), str(B.show(g)))))[0]
        if not const and related(g, full):
            ctx.saw("not_understood", "%s: %s (compared on the path)" % (k[:120], B.show(g)[:100]))
            return
        if k in self.reported:
            return
        self.reported.add(k)
        via = "" if f is self.where else " (reached from %s)" % (self.where.qual if self.cls is None else "%s.%s" % (self.cls.name, self.where.name))
        ctx.violation(rule, k, "%s can go out of bounds: needs %s, has %s; nothing on this path shows that %s is not negative%s" % (
            what, B.show(need)[:120], " or ".join(sorted({B.show(s)[:100] for s in sizes}))[:160], B.show(g)[:160], via),
            "%s:%d" % (f.mod.relpath if hasattr(f.mod, "relpath") else "?", node.lineno))


def base(a, S=None, f=None):
    """an independent size: given by the caller, not something the analysis could not follow"""
    if a.op in ("dim", "nnz", "maxof") and a.a[0].op != "sub":
        r = a.a[0]
        return r.op == "param" or r.op == "attr" and r.a[0].op in ("self", "param")
    if a.op == "dim" and a.a[0].op == "sub" and a.a[0].a[0].op == "meth" and a.a[0].a[0].a[1] in B.PAIRS:
        return True
    if a.op == "vecsize" and a.a[0].op == "undef" and f is not None and "set" in str(f.ctypes.get(a.a[0].a[0], "")):
        return True
    if a.op in ("call", "alloc"):
        n = str(a.a[0]).rsplit(".", 1)[-1]
        return n == "cpu_count" or n in ("min", "max") and S is not None and all(base(b, S, f) for x in a.a[1] for m in S.poly(x) for b in m)
    if a.op == "team":
        return True
    if a.op == "param":
        return True
    if a.op == "attr":
        return a.a[0].op == "self"
    if a.op == "sizeof":
        return True
    return a.op == "vecsize" and False


def related(g, facts):
    """some comparison on the path that could not be used relates both sides of what is missing"""
    def arrays(sign):
        out = set()
        for m, c in g.items():
            if c * sign > 0:
                for a in m:
                    out.add(a.a[0] if a.op in ("dim", "nnz", "maxof") else a)
        return out
    pos, neg = arrays(1), arrays(-1)
    if not pos or not neg:
        return False
    for k in facts:
        if k.op == "cmp" and k.a[0] in ("<", "<=", "==", "!=") or k.op in ("isinst", "isnone"):
            continue
        for x in walk(k):
            if x.op in ("call", "alloc", "meth", "callv") and not (x.op in ("call", "alloc") and str(x.a[0]).startswith("builtins.")):
                sub = set(walk(x))
                if pos & sub and neg & sub and (not pos & neg or any(y.op == "attr" and y.a[1] == "shape" for y in sub)):
                    return True
    return False


def pointerish(t):
    t = M.ident(t)
    while t.op == "cast":
        t = t.a[-1]
    if t.op == "bin":
        return pointerish(t.a[1]) or pointerish(t.a[2])
    return t.op == "addr" or t.op in ("alloc", "call") and str(t.a[0]).endswith(("malloc", "calloc")) or t.op == "param" and t.a[0] in ("batch", "ids", "distances")


def value(t):
    """the number behind an address given to Fortran"""
    return t.a[0] if t.op == "addr" else t


def is_one(t):
    v = value(t)
    return is_const(v) and cval(v) == 1


def element(by):
    """(element type, count) of an amount of bytes"""
    names = {a.a[0] for m in by for a in m if a.op == "sizeof"}
    if len(names) == 1:
        n = next(iter(names))
        a = mk("sizeof", n)
        if all(m.count(a) == 1 for m in by):
            return n, {tuple(x for x in m if x is not a): c for m, c in by.items()}
    if not names:
        return "char", by
    return None


def caller(st, node):
    """the function and statement a BLAS wrapper was called from"""
    return st.frames[-1].func, node


def indexed_by(g):
    """(field, parameter): self.field[parameter] is used"""
    out = set()
    assigned = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(g.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == "self" \
                and isinstance(n.slice, ast.Name) and n.slice.id in g.params and n.slice.id not in assigned:
            out.add((n.value.attr, n.slice.id))
    return sorted(out)


def moved_in(f, node, name):
    """the innermost loop around the node, when it moves the name on by one"""
    par = parents(f)
    n = par.get(node)
    while n is not None and not isinstance(n, (ast.For, ast.While)):
        n = par.get(n)
    if not isinstance(n, ast.For):
        return None
    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
        return None
    for x in ast.walk(n):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name and isinstance(x.op, ast.Add) and const_one(x.value):
            return n
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) \
                and isinstance(x.value.left, ast.Name) and x.value.left.id == name and const_one(x.value.right):
            return n
    return None


def unconditional(f, node):
    """the statement runs once in every iteration of the loop around it"""
    par = parents(f)
    n = par.get(node)
    while isinstance(n, (ast.Expr, ast.With)):
        n = par.get(n)
    return isinstance(n, ast.For)


def const_one(v):
    return isinstance(v, ast.Constant) and v.value == 1


def parents(f):
    if not hasattr(f.node, "_parents"):
        f.node._parents = {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
    return f.node._parents


# -- the number of columns fit gives to the factors

def columns(ctx, cls, S):
    out = {}
    f = ctx.proj.method(cls, "fit")
    if f is None:
        return out
    vals = {}

    def hook(st, kind, node, d):
        if kind == "set" and d[0].op == "self" and str(d[1]).endswith("_factors") and not is_const(d[2]):
            for p in S.dim(d[2], 1):
                if all(a.op == "attr" and a.a[0].op == "self" for m in p for a in m):
                    vals.setdefault((d[0], d[1]), set()).add(frozenset(p.items()))
                    break
            else:
                vals.setdefault((d[0], d[1]), set()).add(None)

    NV.run(ctx, f, cls, hook=hook, traced=False)
    for (o, a), ps in vals.items():
        if len(ps) == 1 and None not in ps:
            out[mk("dim", mk("attr", o, a), 1)] = dict(next(iter(ps)))
    S.memo.clear()
    return out


# -- the neighbour scorer: what it was built with, and what its callers pass

def scorer(ctx, c):
    proj = ctx.proj
    k = NV.scorer_class(proj)
    if k is None:
        return
    init = k.methods.get("__cinit__") or k.methods.get("__init__")
    alias, first = {}, None

    def hook(st, kind, node, d):
        if kind == "set" and d[0].op == "self":
            alias[mk("attr", d[0], d[1])] = d[2]

    if init is not None:
        NV.run(ctx, init, k, hook=hook, traced=False)
        ps = [p for p in init.params if p != "self"]
        first = mk("param", ps[0]) if ps else None
    for n, f in sorted(k.methods.items()):
        if n.startswith("__") or not typed(f):
            continue
        a = dict(alias)
        env, given = passed(ctx, f)
        a.update(env)
        c.entry(f, None, alias=a, square=first, given=given)


def passed(ctx, f):
    """typed array parameters of a scorer method -> what the models pass for them"""
    out, bad, common = {}, set(), []
    params = [p for p in f.params if p != "self"]
    for k in api.model_classes(ctx.proj):
        if api.is_gpu(k):
            continue
        for g in api.query_methods(ctx.proj, k):
            if not any(isinstance(n, ast.Attribute) and n.attr == "scorer" for n in ast.walk(g.node)):
                continue

            def hook(st, kind, node, d):
                if kind == "call" and d[0] == "method:" + f.name and isinstance(d[1], tuple) and len(d[1]) == 3:
                    recv, args, kws = d[1]
                    if not (recv.op == "attr" and recv.a[1] == "scorer"):
                        return
                    env = dict(zip(params, args))
                    env.update(kws)
                    for full in st.full_facts():
                        common.append(dict(full))
                    for p, v in env.items():
                        if "[" not in str(f.argtypes.get(p, "")):
                            continue
                        v = M.ident(v)
                        t = mk("param", p)
                        if out.setdefault(t, v) is not v:
                            bad.add(t)

            NV.run(ctx, g, k, hook=hook, traced=False)
    for t in bad:
        out.pop(t, None)
    given = common[0] if common else {}
    for c in common[1:]:
        given = {k: v for k, v in given.items() if c.get(k) == v}
    return out, given


# -- products that can overflow 32 bits

def callers(ctx, f):
    """[(calling function, argument list)] of the calls by name in native code"""
    memo = ctx.__dict__.setdefault("_calls_by_name", {})
    if not memo:
        for g in NV.kernels(ctx.proj) + natives(ctx.proj):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                    memo.setdefault(nm, []).append((g, n))
    return memo.get(f.name, [])


def overflow(ctx, f):
    """products of two 32 bit quantities, at least one a number of rows, used as an offset or size"""
    par = parents(f)
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult)):
            continue
        if isinstance(par.get(n), ast.BinOp) and isinstance(par[n].op, ast.Mult) and par[n].left is n:
            pass
        l, r = width(f, n.left), width(f, n.right)
        if l is None and r is None:
            continue
        use = used_for(f, n, par)
        if use is None:
            continue
        ctx.obligation("overflow", "%s:%d" % (f.qual, n.lineno))
        if l != "narrow" or r != "narrow":
            continue
        if small(ctx, f, n.left) and small(ctx, f, n.right) or isinstance(n.left, ast.Constant) or isinstance(n.right, ast.Constant):
            continue
        if small(ctx, f, n.left) or small(ctx, f, n.right):
            big = n.right if small(ctx, f, n.left) else n.left
        ctx.violation("overflow", "%s:%s" % (f.qual, ast.unparse(n)), "%s is computed in 32 bits and used as %s: it overflows for large inputs" % (ast.unparse(n), use),
                      "%s:%d" % (f.mod.relpath, n.lineno))


def width(f, n):
    """narrow / wide / None (not a C integer as far as can be seen)"""
    if isinstance(n, ast.Constant):
        return "narrow" if isinstance(n.value, int) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.Name):
        t = f.ctypes.get(n.id) or f.argtypes.get(n.id)
        return by_type(t)
    if isinstance(n, ast.Call):
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if nm == "__cast__" and n.args and isinstance(n.args[0], ast.Constant):
            return by_type(n.args[0].value)
        if nm in ("len", "size", "sizeof"):
            return "wide"
        return None
    if isinstance(n, ast.Subscript):
        if isinstance(n.value, ast.Attribute) and n.value.attr == "shape":
            return "wide"
        if isinstance(n.value, ast.Name):
            t = str(f.ctypes.get(n.value.id) or f.argtypes.get(n.value.id) or "")
            if "[" in t or t.endswith("*"):
                return by_type(t.split("[")[0].rstrip("*"))
        return None
    if isinstance(n, ast.BinOp):
        l, r = width(f, n.left), width(f, n.right)
        if "wide" in (l, r):
            return "wide"
        if l == r == "narrow":
            return "narrow"
        return None
    if isinstance(n, ast.UnaryOp):
        return width(f, n.operand)
    return None


def by_type(t):
    if t is None:
        return None
    t = str(t).replace("const", "").strip()
    if "*" in t or "[" in t or "<" in t:
        return None
    if any(w in t for w in WIDE):
        return "wide"
    if t in NARROW:
        return "narrow"
    return None


def small(ctx, f, n, depth=0):
    """bounded by a number of columns or a constant, not by a number of rows"""
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.Name) and depth < 4:
        defs = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == n.id and x.value is not None:
                defs.append(x.value)
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets):
                defs.append(x.value)
            elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == n.id:
                it = x.iter
                if isinstance(it, ast.Call) and it.args and ast.unparse(it.func).rsplit(".", 1)[-1] in ("range", "prange"):
                    defs.append(it.args[1] if len(it.args) > 1 else it.args[0])
                else:
                    return False
        if n.id in f.params and not defs:
            sites = [(g, argument(f, c, n.id)) for g, c in callers(ctx, f) if g is not f]
            return bool(sites) and all(a is not None and small(ctx, g, a, depth + 1) for g, a in sites)
        return bool(defs) and all(small(ctx, f, d, depth + 1) for d in defs)
    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape":
        return isinstance(n.slice, ast.Constant) and n.slice.value == 1
    if isinstance(n, ast.BinOp):
        return small(ctx, f, n.left, depth) and small(ctx, f, n.right, depth)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__cast__":
        return small(ctx, f, n.args[1], depth)
    return False


def argument(f, call, name):
    """what a call gives to a parameter"""
    params = [p for p in f.params if p != "self"]
    for k in call.keywords:
        if k.arg == name:
            return k.value
    i = params.index(name) if name in params else -1
    if 0 <= i < len(call.args):
        return call.args[i]
    d = f.node.args.defaults
    j = i - (len(params) - len(d))
    return d[j] if 0 <= j < len(d) else None


SIZED = ("zeros", "empty", "ones", "malloc", "calloc", "memcpy", "memset", "memmove", "resize", "reserve", "full")


def used_for(f, n, par, depth=0):
    """how a number ends up: an offset, an amount of memory, or None"""
    x, p = n, par.get(n)
    while p is not None:
        if isinstance(p, ast.Subscript):
            if x is p.value:
                return None
            return "an index"
        if isinstance(p, ast.BinOp):
            if isinstance(p.op, (ast.Add, ast.Sub)):
                o = p.right if x is p.left else p.left
                if isinstance(o, ast.Name) and str(f.ctypes.get(o.id) or f.argtypes.get(o.id) or "").rstrip().endswith("*"):
                    return "a pointer offset"
            elif not isinstance(p.op, ast.Mult):
                return None
        elif isinstance(p, ast.Call):
            nm = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ""
            if nm in SIZED:
                return "an amount of memory"
            if nm != "__cast__":
                return None
        elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, ast.Name) and depth < 2:
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load):
                        u = used_for(f, y, par, depth + 1)
                        if u:
                            return u
            return None
        elif isinstance(p, (ast.Tuple, ast.UnaryOp, ast.Attribute)):
            pass
        else:
            return None
        x, p = p, par.get(p)
    return None
