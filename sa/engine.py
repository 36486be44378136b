"""Trace-partitioned abstract interpretation of the repository's code over value numbers.

Nothing of the analysed program is run and no solver is used.  Values are hash-consed terms, branch outcomes are
remembered per term (so that two tests of the same value agree), loops are approximated by zero, one and two generic
iterations, repository functions are inlined through the class hierarchy, and every write, in-place update and
opaque call is recorded as an event.  The rules look at those events.
"""
import ast
import builtins as _bi

from . import model as M
from .project import Class, Func, Module, AnalysisBroken  # noqa: F401
from .terms import FALSE, NONE, TRUE, T, const, cval, glob, is_const, mk, contains

BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
         ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPOP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin",
         ast.Is: "is", ast.IsNot: "isnot"}


class Ev:
    __slots__ = ("kind", "d", "file", "line", "func", "_h")

    def __init__(self, kind, d, file, line, func):
        self.kind, self.d, self.file, self.line, self.func = kind, d, file, line, func
        self._h = hash((kind, d, file, line, func))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self._h == o._h and self.kind == o.kind and self.d == o.d and self.line == o.line and self.func == o.func)

    def __getitem__(self, i):
        return self.d[i]

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.d, self.where)


class Node:
    __slots__ = ("parent", "ev", "n")


class Frame:
    __slots__ = ("env", "func", "cls", "selft", "outer")

    def __init__(self, env, func, cls=None, selft=None, outer=None):
        self.env, self.func, self.cls, self.selft, self.outer = env, func, cls, selft, outer

    def copy(self):
        return Frame(dict(self.env), self.func, self.cls, self.selft, self.outer)


class State:
    __slots__ = ("frames", "heap", "facts", "trace", "ver", "ctx", "cnt", "alts")

    def __init__(self):
        self.frames, self.heap, self.facts, self.trace, self.ver, self.ctx, self.cnt = [], {}, {}, None, {}, (), {}
        self.alts = None   # disjuncts left by merging: each a dict of facts on top of self.facts

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap, s.facts, s.trace = dict(self.heap), dict(self.facts), self.trace
        s.ver, s.ctx, s.cnt = dict(self.ver), self.ctx, dict(self.cnt)
        s.alts = self.alts
        return s

    def full_facts(self):
        """the fact sets this state stands for"""
        if not self.alts:
            return [self.facts]
        return [{**self.facts, **a} for a in self.alts]

    def set_facts(self, full, cap=16):
        """stand for the given fact sets (one of them holds)"""
        uniq = {}
        for f in full:
            uniq.setdefault(frozenset(f.items()), f)
        full = list(uniq.values())
        self.facts = {k: v for k, v in full[0].items() if all(f.get(k) == v for f in full[1:])}
        if len(full) == 1 or len(full) > cap:
            self.alts = None
            return
        self.alts = tuple({k: v for k, v in f.items() if k not in self.facts} for f in full)

    def learn(self, a, val):
        self.facts[a] = val
        if self.alts:
            left = [f for f in self.full_facts() if f.get(a, val) == val]
            left = left or [self.facts]
            self.set_facts([{**f, a: val} for f in left])

    @property
    def env(self):
        return self.frames[-1].env

    def events(self):
        out = []
        n = self.trace
        while n is not None:
            out.append(n.ev)
            n = n.parent
        out.reverse()
        return out


class View:
    __slots__ = ("facts", "heap")

    def __init__(self, facts, heap):
        self.facts, self.heap = facts, heap


class Path:
    def __init__(self, st, kind, value):
        self.st, self.kind, self.value = st, kind, value
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev

    def fact(self, t):
        return self.st.facts.get(t)


class Budget(Exception):
    pass


def counts(t):
    """a number of elements: never negative"""
    return t.op == "call" and t.a[0] == "builtins.len" or t.op == "attr" and t.a[1] in ("size", "nnz")


class Engine:
    def __init__(self, proj, opaque=(), inline_kernels=False, loops=2, max_depth=14, budget=60000, floating_double=True,
                 zero_iter=True, unroll=None, hook=None, traced=True):
        self.proj = proj
        self.traced = traced            # False: paths that reach the same state are one, whatever happened on the way
        self.hook = hook                # (state, kind, node, data): told about events and subscripts as they are evaluated
        self.opaque = set(opaque)
        self.inline_kernels = inline_kernels
        self.loops = loops
        self.max_depth = max_depth
        self.budget = budget
        self.floating_double = floating_double
        self.zero_iter = zero_iter
        self.unroll = unroll            # (loop node, depth) -> times to follow it, None for the default
        self.sink = []
        self._nodes = {}
        self._sites = {}
        self._closures = {}
        self.param_kinds = {}
        self.unknown = {}
        self.truncated = False
        self.steps = 0
        self.inlined = set()
        self.analysed = set()
        self.extra_pure = set()
        self.tested = {}

    # ------------------------------------------------------------------ helpers
    def site(self, node):
        k = id(node)
        if k not in self._sites:
            self._sites[k] = (len(self._sites), node)
        return self._sites[k][0]

    def emit(self, st, kind, node, *d):
        if not self.traced:
            if self.hook is not None:
                self.hook(st, kind, node, d)
            return
        f = st.frames[-1].func if st.frames else None
        ev = Ev(kind, d, f.file if f else "?", getattr(node, "lineno", 0), f.qual if f else "?")
        key = (id(st.trace), ev)
        n = self._nodes.get(key)
        if n is None:
            n = Node()
            n.parent, n.ev = st.trace, ev
            n.n = (st.trace.n + 1) if st.trace else 1
            self._nodes[key] = n
        st.trace = n
        if self.hook is not None:
            self.hook(st, kind, node, d)

    def note_unknown(self, what, node):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def fresh(self, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def dedupe(self, states):
        if len(states) < 2:
            return states
        out = {}
        for s in states:
            key = (id(s.trace), s.ctx, tuple(frozenset(f.env.items()) for f in s.frames), frozenset(s.heap.items()), frozenset(s.ver.items()))
            o = out.get(key)
            if o is None:
                out[key] = s
            else:
                o.set_facts(o.full_facts() + s.full_facts())
        return list(out.values())

    # ------------------------------------------------------------------ conditions
    def norm(self, t):
        pol = True
        while True:
            if t.op == "un" and t.a[0] == "not":
                t, pol = t.a[1], not pol
                continue
            if t.op == "truth" and t.a[0].op in ("cmp", "isnone", "isinst", "un", "truth", "const"):
                t = t.a[0]
                continue
            if t.op == "call" and t.a[0] == "builtins.bool" and len(t.a[1]) == 1:
                t = mk("truth", t.a[1][0])
                continue
            if t.op == "cmp":
                o, a, b = t.a
                if o == "<" and is_const(a) and cval(a) == 0 and cval(a) is not False and counts(b):
                    t = mk("truth", b)
                elif o == "<" and is_const(b) and cval(b) == 1 and cval(b) is not True and counts(a):
                    t, pol = mk("truth", a), not pol
                elif o == "==" and is_const(b) and cval(b) == 0 and cval(b) is not False and counts(a):
                    t, pol = mk("truth", a), not pol
                elif o == "==" and is_const(a) and cval(a) == 0 and cval(a) is not False and counts(b):
                    t, pol = mk("truth", b), not pol
                elif o == "!=":
                    t, pol = mk("cmp", "==", a, b), not pol
                elif o == "notin":
                    t, pol = mk("cmp", "in", a, b), not pol
                elif o == ">":
                    t = mk("cmp", "<", b, a)
                elif o == ">=":
                    t, pol = mk("cmp", "<", a, b), not pol
                elif o == "<=":
                    t, pol = mk("cmp", "<", b, a), not pol
                elif o in ("is", "isnot"):
                    if o == "isnot":
                        pol = not pol
                    if b is NONE:
                        t = mk("isnone", a)
                    elif a is NONE:
                        t = mk("isnone", b)
                    else:
                        t = mk("cmp", "is_", a, b)
                elif o == "==" and b.uid < a.uid:
                    t = mk("cmp", "==", b, a)
                else:
                    return t, pol
                continue
            if t.op in ("isnone", "isinst", "const", "truth"):
                return t, pol
            t = mk("truth", t)

    def nonnull(self, t):
        t = M.ident(t)
        if t.op in ("alloc", "new", "self", "bin", "cmp", "func", "class", "tuple", "list", "slice", "lv", "bound", "partial", "closure",
                    "sizeof", "addr", "range", "isinst", "isnone", "un", "dict", "comp", "cast"):
            return True
        if t.op == "const":
            return cval(t) is not None
        if t.op == "call":
            return t.a[0].startswith(("numpy.", "builtins.", "scipy.")) and t.a[0] not in ("builtins.getattr", "builtins.next", "builtins.dict.get")
        if t.op == "meth":
            return t.a[1] in M.PURE_METHODS and t.a[1] not in ("get", "pop", "item")
        if t.op == "attr":
            return t.a[1] in ("data", "indices", "indptr", "shape", "T", "dtype", "row", "col")
        return False

    def decide(self, t, st):
        a, pol = self.norm(t)
        v = self._decide(a, st)
        if v is None and st is not None and st.alts and a.op != "const":
            vs = {self._decide(a, View({**st.facts, **x}, st.heap)) for x in st.alts}
            if len(vs) == 1:
                v = vs.pop()
        return None if v is None else (v == pol)

    def _decide(self, a, st):
        v = st.facts.get(a) if st is not None else None
        if v is not None:
            return v
        if a.op == "const":
            return bool(cval(a))
        if a.op == "truth":
            x = a.a[0]
            if is_const(x):
                return bool(cval(x))
            if st is not None and st.facts.get(mk("isnone", x)) is True:
                return False
            if x.op in ("func", "class", "bound", "partial", "closure", "self", "new"):
                return True
            if x.op in ("tuple",):
                return bool(x.a[0])
            if x.op == "list":
                c = st.heap.get((x, "[]")) if st is not None else None
                if c is not None:
                    return bool(c.a[0])
            return None
        if a.op == "isnone":
            x = a.a[0]
            if x is NONE:
                return True
            if self.nonnull(x):
                return False
            y = M.ident(x)
            if st is not None:
                if st.facts.get(mk("truth", x)) is True:
                    return False
                for k in (y,):
                    if k is not x and st.facts.get(mk("isnone", k)) is not None:
                        return st.facts[mk("isnone", k)]
            return None
        if a.op == "cmp":
            o, x, y = a.a
            if is_const(x) and is_const(y):
                try:
                    if o == "==":
                        return cval(x) == cval(y)
                    if o == "<":
                        return cval(x) < cval(y)
                    if o == "is_":
                        return cval(x) is cval(y)
                    if o == "in":
                        return cval(x) in cval(y)
                except TypeError:
                    return None
            if o == "==" and x is y:
                return True if self.is_scalar_like(x) else None
            if o == "<" and x is y:
                return False if self.is_scalar_like(x) else None
            if o == "is_" and x is y:
                return True
            if o == "is_" and x.op == "glob" and y.op == "glob":
                if {x.a[0].rsplit(".", 1)[-1], y.a[0].rsplit(".", 1)[-1]} == {"floating", "double"}:
                    return self.floating_double
                if "floating" in (x.a[0].rsplit(".", 1)[-1], y.a[0].rsplit(".", 1)[-1]):
                    return not self.floating_double
            if o == "in" and y.op in ("tuple", "list") and is_const(x):
                els = y.a[0] if y.op == "tuple" else None
                if y.op == "list" and st is not None:
                    c = st.heap.get((y, "[]"))
                    els = c.a[0] if c is not None else None
                if els is not None and all(is_const(e) for e in els):
                    return cval(x) in [cval(e) for e in els]
            if o == "in" and y.op in ("alloc", "dict") and st is not None and (y, "{}") in st.heap and is_const(x):
                c = st.heap[(y, "{}")]
                ks = [k for k, _ in c.a[0]]
                if x in ks:
                    return True
                if not c.a[1] and all(is_const(k) for k in ks):
                    return False
            return None
        if a.op == "isinst":
            x, c = a.a
            if x is NONE:
                return "NoneType" in str(c)
            if x.op == "new" and c.op == "class":
                k = self.proj.find_class(x.a[0])
                if k:
                    return any(m.qual == c.a[0] for m in self.proj.mro(k))
            if c.op == "glob" and c.a[0].startswith("scipy.sparse.") and st is not None:
                f = None
                y = M.ident(x)
                if y.op in ("call", "alloc", "meth"):
                    f = M.fmt(self, y, None)
                if f:
                    return c.a[0].endswith("." + f + "_matrix")
            return None
        return None

    def is_scalar_like(self, t):
        return M.kind(self, t, None) in ("num", "str", "bool", "none")

    def assume(self, st, t, val):
        a, pol = self.norm(t)
        st.learn(a, val == pol)
        if a.op == "isinst" and val == pol and "NoneType" not in str(a.a[1]):
            n = mk("isnone", a.a[0])
            if self._decide(n, st) is None:
                st.learn(n, False)

    def branch(self, t, st, node=None):
        """-> [(state, bool)]"""
        v = self.decide(t, st)
        if node is not None:
            a, _ = self.norm(t)
            if a.op == "truth" and a.a[0].op == "param":
                f = st.frames[-1].func if st.frames else None
                self.tested.setdefault(a.a[0].a[0], "%s:%d" % (f.file if f else "?", getattr(node, "lineno", 0)))
        if v is not None:
            return [(st, v)]
        self.tick()
        o = st.copy()
        self.assume(st, t, True)
        self.assume(o, t, False)
        return [(st, True), (o, False)]

    def tested_truth(self, names):
        """parameters whose truth value some path tests -> [(name, where)]"""
        return [(n, w) for n, w in self.tested.items() if n in names]

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            self.truncated = True
            raise Budget()

    def cond(self, e, st):
        """evaluate expression as a condition -> [(state, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live, done = [st], []
            for i, v in enumerate(e.values):
                nxt = []
                for s in live:
                    for s2, b in self.cond(v, s):
                        if b != isand:
                            done.append((s2, b))
                        elif i == len(e.values) - 1:
                            done.append((s2, b))
                        else:
                            nxt.append(s2)
                live = nxt
            return done
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st)
        out = []
        for s, v in self.eval(e, st):
            out.extend(self.branch(v, s, e))
        return out

    # ------------------------------------------------------------------ expressions
    def evs(self, es, st):
        live = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in live:
                for s2, v in self.eval(e, s):
                    nxt.append((s2, vs + (v,)))
            live = nxt
        return live

    def eval1(self, e, st):
        r = self.eval(e, st)
        return r[0][1] if r else mk("opaque", "none")

    def eval(self, e, st):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            self.note_unknown(type(e).__name__, e)
            return [(st, mk("opaque", type(e).__name__, self.site(e)))]
        return m(e, st)

    def x_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return [(st, mk("const", "ellipsis", "..."))]
        return [(st, const(v))]

    def x_JoinedStr(self, e, st):
        parts = []
        live = [(st, ())]
        for v in e.values:
            if isinstance(v, ast.Constant):
                live = [(s, vs + (const(v.value),)) for s, vs in live]
            else:
                nxt = []
                for s, vs in live:
                    for s2, x in self.eval(v.value, s):
                        nxt.append((s2, vs + (x,)))
                live = nxt
        del parts
        out = []
        for s, vs in live:
            if all(is_const(x) for x in vs):
                out.append((s, const("".join(str(cval(x)) for x in vs))))
            else:
                out.append((s, mk("fstr", vs)))
        return out

    def x_Name(self, e, st):
        return [(st, self.name(e.id, st))]

    def name(self, n, st):
        f = st.frames[-1]
        if n in f.env:
            return f.env[n]
        o = f.outer
        if o is not None and n in o:
            return o[n]
        return self.global_name(n, f.func.mod, f.func)

    def global_name(self, n, mod, func=None):
        if n in mod.funcs:
            return mk("func", mod.funcs[n].qual)
        if n in mod.classes:
            return mk("class", mod.classes[n].qual)
        if n in mod.imports:
            return self.dotted(mod.imports[n])
        if n in mod.consts:
            v = mod.consts[n]
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, ast.Tuple) and all(isinstance(x, ast.Constant) for x in v.elts):
                return mk("tuple", tuple(const(x.value) for x in v.elts))
            if isinstance(v, (ast.Attribute, ast.Name)):
                parts = ast.unparse(v).split(".")
                if parts[0] in mod.imports:
                    return self.dotted(".".join([mod.imports[parts[0]]] + parts[1:]))
            return glob(mod.name + "." + n)
        if func is not None and (n in func.ctypes):
            return mk("undef", n)
        if hasattr(_bi, n):
            return glob("builtins." + n)
        for s in mod.stars:
            r = self.proj.resolve(s + "." + n)
            if r is not None:
                return self.dotted(s + "." + n)
        return glob(n)

    def dotted(self, d):
        r = self.proj.resolve(d) if d.startswith("implicit") else None
        if isinstance(r, Func):
            return mk("func", r.qual)
        if isinstance(r, Class):
            return mk("class", r.qual)
        if isinstance(r, Module):
            return glob(r.name)
        if d.startswith("implicit"):
            mod, _, n = d.rpartition(".")
            m = self.proj.modules.get(mod)
            if m and n in m.consts:
                t = self.global_name(n, m)
                return t
        return glob(M.ALIASES.get(d, d))

    def x_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
                acc = []
                for x, v in zip(e.elts, vs):
                    if isinstance(x, ast.Starred):
                        if v.op == "tuple":
                            acc.extend(v.a[0])
                        else:
                            acc.append(mk("star", v))
                    else:
                        acc.append(v)
                out.append((s, mk("tuple", tuple(acc))))
            return out
        return [(s, mk("tuple", vs)) for s, vs in self.evs(e.elts, st)]

    def x_List(self, e, st):
        out = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            t = mk("list", vs, self.site(e), self.fresh(s, ("l", id(e))))
            if not any(isinstance(x, ast.Starred) for x in e.elts):
                s.heap[(t, "[]")] = mk("elems", vs)
            out.append((s, t))
        return out

    def x_Set(self, e, st):
        return [(s, mk("set", vs, self.site(e))) for s, vs in self.evs(e.elts, st)]

    def x_Dict(self, e, st):
        out = []
        ks = [k for k in e.keys if k is not None]
        for s, vals in self.evs(ks + list(e.values), st):
            kv, vv = list(vals[: len(ks)]), list(vals[len(ks):])
            ents, maybe, ki = [], False, 0
            for k, v in zip(e.keys, vv):
                if k is None:
                    c = s.heap.get((M.ident(v), "{}"))
                    if c is not None:
                        for kk, x in c.a[0]:
                            ents = [(a, b) for a, b in ents if a is not kk] + [(kk, x)]
                        maybe = maybe or c.a[1]
                    else:
                        ents.append((const("**"), v))
                        maybe = True
                else:
                    kk = kv[ki]
                    ki += 1
                    ents = [(a, b) for a, b in ents if a is not kk] + [(kk, v)]
            t = mk("dict", self.site(e), self.fresh(s, ("d", id(e))))
            s.heap[(t, "{}")] = mk("dents", tuple(ents), maybe)
            out.append((s, t))
        return out

    def x_Attribute(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            out.extend(self.getattr(b, e.attr, s, e))
        return out

    def class_of(self, b):
        b = M.ident(b)
        if b.op in ("self", "new"):
            return self.proj.find_class(b.a[0])
        return None

    def getattr(self, b, attr, st, node):
        if b.op == "glob":
            return [(st, self.dotted(b.a[0] + "." + attr))]
        if b.op == "class":
            c = self.proj.find_class(b.a[0])
            f = self.proj.method(c, attr) if c else None
            if f is not None:
                return [(st, mk("bound", b, f.qual) if f.is_classmethod else mk("func", f.qual))]
            return [(st, mk("attr", b, attr))]
        if b.op == "super":
            c = self.proj.find_class(b.a[0])
            dyn = self.class_of(b.a[1]) if b.a[1].op != "class" else self.proj.find_class(b.a[1].a[0])
            f = self.proj.method(dyn or c, attr, after=c)
            if f is not None:
                return [(st, mk("bound", b.a[1], f.qual))]
            return [(st, mk("superattr", b.a[1], attr))]
        o = M.ident(b)
        if (o, attr) in st.heap:
            return [(st, st.heap[(o, attr)])]
        c = self.class_of(o)
        if c is not None:
            f = self.proj.method(c, attr)
            if f is not None:
                if f.is_property:
                    return self.call_func(f, [o], [], st, node, selft=o)
                if f.is_static:
                    return [(st, mk("func", f.qual))]
                return [(st, mk("bound", o, f.qual))]
            for k in self.proj.mro(c):
                if attr in k.attrs:
                    return [(st, self.class_attr(k, attr, o))]
            if attr == "__dict__":
                return [(st, mk("attr", o, "__dict__"))]
            if o.op == "new" and attr not in getattr(c, "fields", {}) and c.mod.name != "implicit.native":
                pass
        if attr in ("shape", "dtype", "ndim", "size") and b.op in ("upd", "inpl"):
            b = o
        v = st.ver.get(o)
        if v:
            return [(st, mk("attr", o, attr, v))]
        return [(st, mk("attr", b if attr not in ("shape", "dtype") else o, attr))]

    def class_attr(self, k, attr, o):
        v = k.attrs[attr]
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.Name) and v.id in k.methods:
            return mk("bound", o, k.methods[v.id].qual)
        return mk("attr", mk("class", k.qual), attr)

    def x_Subscript(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            for s2, i in self.index(e.slice, s):
                if self.hook is not None:
                    self.hook(s2, "access", e, (b, i))
                out.append((s2, self.subscript(b, i, s2)))
        return out

    def index(self, e, st):
        if isinstance(e, ast.Slice):
            parts = [e.lower, e.upper, e.step]
            live = [(st, ())]
            for p in parts:
                nxt = []
                for s, vs in live:
                    if p is None:
                        nxt.append((s, vs + (NONE,)))
                    else:
                        for s2, v in self.eval(p, s):
                            nxt.append((s2, vs + (v,)))
                live = nxt
            return [(s, mk("slice", *vs)) for s, vs in live]
        if isinstance(e, ast.Tuple):
            live = [(st, ())]
            for p in e.elts:
                nxt = []
                for s, vs in live:
                    for s2, v in self.index(p, s):
                        nxt.append((s2, vs + (v,)))
                live = nxt
            return [(s, mk("tuple", vs)) for s, vs in live]
        return self.eval(e, st)

    def subscript(self, b, i, st):
        if is_const(i) and isinstance(cval(i), int) and b.op == "tuple":
            if -len(b.a[0]) <= cval(i) < len(b.a[0]):
                return b.a[0][cval(i)]
        if b.op == "list" and is_const(i) and isinstance(cval(i), int):
            c = st.heap.get((b, "[]"))
            if c is not None and -len(c.a[0]) <= cval(i) < len(c.a[0]):
                return c.a[0][cval(i)]
        o = M.ident(b)
        c = st.heap.get((o, "{}"))
        if c is not None:
            for k, v in c.a[0]:
                if k is i:
                    return v
        if b.op == "call" and b.a[0] in ("numpy.r_", "numpy.c_"):
            pass
        if b.op == "glob" and b.a[0] in ("numpy.r_", "numpy.c_"):
            return mk("call", b.a[0], (i,) if i.op != "tuple" else i.a[0], ())
        if b.op == "upd" and b.a[1] is i and i.op != "slice":
            return b.a[2]
        return mk("sub", b, i)

    def x_Slice(self, e, st):
        return self.index(e, st)

    def x_Starred(self, e, st):
        return [(s, mk("star", v)) for s, v in self.eval(e.value, st)]

    def x_BinOp(self, e, st):
        op = BINOP[type(e.op)]
        return [(s, self.bin(op, l, r)) for s, (l, r) in self.evs([e.left, e.right], st)]

    def bin(self, op, l, r):
        if is_const(l) and is_const(r):
            try:
                a, b = cval(l), cval(r)
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    if op == "**" and abs(b) > 64:
                        raise ValueError
                    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b,
                         "%": lambda: a % b, "**": lambda: a ** b, "<<": lambda: a << b}[op]()
                    return const(v)
                if isinstance(a, str) and isinstance(b, str) and op == "+":
                    return const(a + b)
            except Exception:  # noqa
                pass
        if l.op == "tuple" and r.op == "tuple" and op == "+":
            return mk("tuple", l.a[0] + r.a[0])
        return mk("bin", op, l, r)

    def x_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            for s, v in self.eval(e.operand, st):
                d = self.decide(v, s)
                out.append((s, mk("un", "not", v) if d is None else const(not d)))
            return out
        o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        for s, v in self.eval(e.operand, st):
            if is_const(v) and isinstance(cval(v), (int, float)) and o == "-":
                out.append((s, const(-cval(v))))
            elif o == "+":
                out.append((s, v))
            else:
                out.append((s, mk("un", o, v)))
        return out

    def x_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        live, done = [st], []
        for i, v in enumerate(e.values):
            nxt = []
            for s in live:
                for s2, t in self.eval(v, s):
                    if i == len(e.values) - 1:
                        done.append((s2, t))
                        continue
                    for s3, b in self.branch(t, s2, v):
                        if b != isand:
                            # the value itself, refined
                            done.append((s3, t if not (t.op in ("cmp", "isnone", "isinst", "truth", "un")) else const(b)))
                        else:
                            nxt.append(s3)
            live = nxt
        return done

    def x_Compare(self, e, st):
        if len(e.ops) > 1:
            return [(s, const(b)) for s, b in self.cond(e, st)]
        op = CMPOP[type(e.ops[0])]
        out = []
        for s, (l, r) in self.evs([e.left, e.comparators[0]], st):
            if op in ("is", "isnot") and (r is NONE or l is NONE):
                t = mk("isnone", l if r is NONE else r)
                out.append((s, t if op == "is" else mk("un", "not", t)))
            else:
                out.append((s, mk("cmp", op, l, r)))
        return out

    def x_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            out.extend(self.eval(e.body if b else e.orelse, s))
        return out

    def x_NamedExpr(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def x_Lambda(self, e, st):
        fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[],
                             returns=None, type_params=[], lineno=e.lineno, col_offset=e.col_offset)
        return [(st, self.closure(fn, st, e))]

    def closure(self, fn, st, node):
        f0 = st.frames[-1]
        f = Func(f0.func.mod, fn)
        f.qual = f0.func.qual + ".<locals>." + fn.name
        env = dict(f0.outer or {})
        env.update(f0.env)
        t = mk("closure", f.qual, self.site(node), len(self._closures))
        self._closures[t] = (f, env)
        return t

    def _comp(self, e, st, kindname, elts):
        """generic element of a comprehension"""
        env0 = dict(st.env)
        res = []
        live = [(st, ())]
        for gi, g in enumerate(e.generators):
            nxt = []
            for s, its in live:
                for s2, it in self.eval(g.iter, s):
                    known = self.known_elems(it, s2) if len(e.generators) == 1 and kindname in ("list", "gen", "set") and not g.ifs else None
                    if known is not None and len(known) <= 6:
                        states = [(s2, ())]
                        for el in known:
                            n2 = []
                            for s3, acc in states:
                                for s4 in self.assign(g.target, el, s3, g):
                                    for s5, vs in self.evs(elts, s4):
                                        n2.append((s5, acc + vs))
                            states = n2
                        for s3, acc in states:
                            s3.frames[-1].env = dict(env0)
                            t = mk("list", acc, self.site(e), self.fresh(s3, ("l", id(e))))
                            s3.heap[(t, "[]")] = mk("elems", acc)
                            res.append((s3, t))
                        continue
                    el = self.element(it, g, 0, s2)
                    for s3 in self.assign(g.target, el, s2, g):
                        conds = []
                        ok = [(s3, ())]
                        for c in g.ifs:
                            ok2 = []
                            for s4, cs in ok:
                                for s5, v in self.eval(c, s4):
                                    ok2.append((s5, cs + (v,)))
                            ok = ok2
                        del conds
                        for s4, cs in ok:
                            nxt.append((s4, its + ((it, cs, el),)))
            live = nxt
            if res:
                return res
        out = []
        for s, its in live:
            for s2, vs in self.evs(elts, s):
                s2.frames[-1].env = dict(env0)
                out.append((s2, mk("comp", kindname, vs, its)))
        return out

    def known_elems(self, it, st):
        if it.op == "tuple":
            return None if any(x.op == "star" for x in it.a[0]) else it.a[0]
        if it.op == "list":
            c = st.heap.get((it, "[]"))
            return c.a[0] if c is not None else None
        if it.op == "range" and all(is_const(x) for x in it.a[:3]):
            r = range(cval(it.a[0]), cval(it.a[1]), cval(it.a[2]))
            return tuple(const(i) for i in r) if len(r) <= 6 else None
        if it.op == "meth" and it.a[1] in ("items", "keys", "values") and not it.a[2]:
            c = st.heap.get((M.ident(it.a[0]), "{}"))
            if c is not None and not c.a[1]:
                if it.a[1] == "items":
                    return tuple(mk("tuple", (k, v)) for k, v in c.a[0])
                return tuple(k if it.a[1] == "keys" else v for k, v in c.a[0])
        if it.op == "dict" and (it, "{}") in st.heap and not st.heap[(it, "{}")].a[1]:
            return tuple(k for k, _ in st.heap[(it, "{}")].a[0])
        if it.op == "call" and it.a[0] == "builtins.zip":
            parts = [self.known_elems(x, st) for x in it.a[1]]
            if all(p is not None for p in parts) and parts:
                return tuple(mk("tuple", tuple(z)) for z in zip(*parts))
        if it.op == "call" and it.a[0] == "builtins.enumerate" and len(it.a[1]) == 1:
            p = self.known_elems(it.a[1][0], st)
            if p is not None:
                return tuple(mk("tuple", (const(i), x)) for i, x in enumerate(p))
        if it.op == "call" and it.a[0] == "builtins.reversed" and it.a[1]:
            p = self.known_elems(it.a[1][0], st)
            return tuple(reversed(p)) if p is not None else None
        return None

    def x_ListComp(self, e, st):
        return self._comp(e, st, "list", [e.elt])

    def x_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen", [e.elt])

    def x_SetComp(self, e, st):
        return self._comp(e, st, "set", [e.elt])

    def x_DictComp(self, e, st):
        g = e.generators[0]
        if len(e.generators) == 1:
            # a comprehension over a tracked dictionary keeps its entries (filters make them conditional)
            out = []
            for s, it in self.eval(g.iter, st):
                els = self.known_elems(it, s)
                if els is None:
                    out.extend(self._comp(e, s, "dict", [e.key, e.value]))
                    continue
                env0 = dict(s.env)
                states = [(s, ())]
                for el in els:
                    n2 = []
                    for s2, acc in states:
                        for s3 in self.assign(g.target, el, s2, g):
                            keep = [(s3, True)]
                            for c in g.ifs:
                                k2 = []
                                for s4, k in keep:
                                    for s5, v in self.eval(c, s4):
                                        d = self.decide(v, s5)
                                        if d is None:
                                            self.emit(s5, "filter", e, el, v)
                                        k2.append((s5, k and (True if d is None else d)))
                                keep = k2
                            for s4, k in keep:
                                if not k:
                                    n2.append((s4, acc))
                                    continue
                                for s5, kv in self.evs([e.key, e.value], s4):
                                    n2.append((s5, acc + (kv,)))
                    states = n2
                for s2, acc in states:
                    s2.frames[-1].env = dict(env0)
                    t = mk("dict", self.site(e), self.fresh(s2, ("d", id(e))))
                    s2.heap[(t, "{}")] = mk("dents", acc, bool(g.ifs))
                    out.append((s2, t))
            return out
        return self._comp(e, st, "dict", [e.key, e.value])

    def x_Await(self, e, st):
        return self.eval(e.value, st)

    def x_Yield(self, e, st):
        if e.value is None:
            return [(st, NONE)]
        out = []
        for s, v in self.eval(e.value, st):
            self.emit(s, "yield", e, v)
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------------ calls
    def x_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "__addr__":
            return self.x_addr(e, st)
        if isinstance(f, ast.Name) and f.id == "__cast__":
            ty = e.args[0].value
            out = []
            for s, v in self.eval(e.args[1], st):
                out.append((s, v if "*" in ty else mk("cast", ty, v)))
            return out
        if isinstance(f, ast.Name) and f.id == "__sizeof__":
            return [(st, mk("sizeof", e.args[0].value))]
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "__new__":
            out = []
            for s, vs in self.evs(e.args, st):
                t = mk("alloc", "new:" + f.attr, vs, (), self.site(e), self.fresh(s, id(e)))
                self.emit(s, "alloc", e, t)
                out.append((s, t))
            return out
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in st.env:
            fr = st.frames[-1]
            if not e.args:
                return [(st, mk("super", fr.cls.qual if fr.cls else "?", fr.selft or NONE))]
            out = []
            for s, vs in self.evs(e.args, st):
                out.append((s, mk("super", vs[0].a[0] if vs[0].op == "class" else "?", vs[1] if len(vs) > 1 else NONE)))
            return out
        out = []
        recv_expr = None
        if isinstance(f, ast.Attribute):
            for s, b in self.eval(f.value, st):
                out.extend(self._call_attr(e, b, f.attr, s))
            return out
        del recv_expr
        for s, c in self.eval(f, st):
            for s2, args, kws in self.args(e, s):
                out.extend(self.call(c, args, kws, s2, e))
        return out

    def _call_attr(self, e, b, attr, st):
        out = []
        cands = self.getattr(b, attr, st, e.func) if b.op in ("glob", "class", "super", "self", "new") or (M.ident(b), attr) in st.heap else [(st, None)]
        for s, c in cands:
            for s2, args, kws in self.args(e, s):
                if c is None or (c.op == "attr" and M.ident(c.a[0]) is M.ident(b)):
                    out.extend(self.call_method(b, attr, args, kws, s2, e))
                else:
                    out.extend(self.call(c, args, kws, s2, e))
        return out

    def x_addr(self, e, st):
        x = e.args[0]
        if isinstance(x, ast.Name):
            key = (len(st.frames) - 1, x.id)
            return [(st, mk("addr", self.name(x.id, st), key))]
        x._is_addr = True
        return [(s, mk("addr", v, None)) for s, v in self.eval(x, st)]

    def args(self, e, st):
        """-> [(state, [pos terms], [(kw, term)])]"""
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        out = []
        for s, vs in self.evs(exprs, st):
            pos, kws = [], []
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    if v.op == "tuple":
                        pos.extend(v.a[0])
                    elif v.op == "list" and (v, "[]") in s.heap:
                        pos.extend(s.heap[(v, "[]")].a[0])
                    else:
                        pos.append(mk("star", v))
                else:
                    pos.append(v)
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is None:
                    c = s.heap.get((M.ident(v), "{}"))
                    if c is not None:
                        for kk, x in c.a[0]:
                            if is_const(kk) and isinstance(cval(kk), str):
                                kws.append((cval(kk), x))
                            else:
                                kws.append(("**", mk("tuple", (kk, x))))
                        if c.a[1]:
                            kws.append(("**maybe", v))
                    else:
                        kws.append(("**", v))
                else:
                    kws.append((k.arg, v))
            out.append((s, pos, kws))
        return out

    def call(self, c, args, kws, st, node):
        if c.op == "func":
            f = self.find(c.a[0])
            if f is not None:
                return self.call_func(f, args, kws, st, node)
        if c.op == "bound":
            f = self.find(c.a[1])
            if f is not None:
                return self.call_func(f, [c.a[0]] + list(args), kws, st, node, selft=c.a[0])
        if c.op == "class":
            return self.instantiate(c, args, kws, st, node)
        if c.op == "partial":
            have = dict(c.a[2])
            have.update(dict(kws))
            return self.call(c.a[0], list(c.a[1]) + list(args), list(have.items()), st, node)
        if c.op == "closure":
            f, env = self._closures[c]
            return self.call_func(f, args, kws, st, node, outer=env)
        if c.op == "glob":
            return self.call_lib(c.a[0], args, kws, st, node)
        # unknown callable (callback parameter, stored function, ...)
        t = mk("callv", c, tuple(args), tuple(kws), self.site(node), self.fresh(st, id(node)))
        self.emit(st, "callv", node, c, tuple(args), tuple(kws))
        return [(st, t)]

    def find(self, qual):
        f = self.proj.find_func(qual)
        if f is None:
            f = self.proj.resolve(qual)
        return f if isinstance(f, Func) else None

    def bind(self, f, args, kws, st, node):
        """-> dict parameter -> term (defaults filled in)"""
        env = {}
        params = list(f.params)
        extra = []
        seen_star = None
        for i, a in enumerate(args):
            if a.op == "star":
                seen_star = a.a[0]
                continue
            if seen_star is not None:
                extra.append(a)
                continue
            if i < len(params):
                env[params[i]] = a
            else:
                extra.append(a)
        ex_kw = []
        dstar = None
        for k, v in kws:
            if k in params or k in f.kwonly:
                env[k] = v
            elif k in ("**", "**maybe"):
                dstar = v
                ex_kw.append((const(k), v))
            else:
                ex_kw.append((const(k), v))
        if seen_star is not None and not f.vararg:
            npos = next(i for i, a in enumerate(args) if a.op == "star")
            both = (dstar,) if dstar is not None and not f.kwarg else ()
            for i, p in enumerate(params):
                if p not in env:
                    env[p] = mk("fromstar", seen_star, i - npos, *both)
        for p in params + f.kwonly:
            if p not in env:
                if dstar is not None and not f.kwarg:
                    env[p] = mk("fromstar", dstar, p)
                elif p in f.defaults:
                    env[p] = self.default(f, p)
                else:
                    env[p] = mk("undef", p)
        if f.vararg:
            env[f.vararg] = mk("tuple", tuple(([mk("star", seen_star)] if seen_star is not None else []) + extra))
        if f.kwarg:
            t = mk("dict", self.site(node), self.fresh(st, ("kw", id(node))))
            st.heap[(t, "{}")] = mk("dents", tuple((k, v) for k, v in ex_kw), any(cval(k) in ("**", "**maybe") for k, _ in ex_kw))
            env[f.kwarg] = t
        return env

    def default(self, f, p):
        d = f.defaults[p]
        if isinstance(d, ast.Constant):
            return const(d.value)
        try:
            s = State()
            s.frames.append(Frame({}, f))
            return self.eval1(d, s)
        except Exception:  # noqa
            return mk("opaque", "default", p)

    def is_opaque(self, f, st):
        if f.qual in self.opaque or f.name in self.opaque:
            return True
        if f.is_abstract and len(f.node.body) <= 1:
            return True
        if f.is_generator:
            return True
        if f.is_kernel and not self.inline_kernels:
            return True
        if len(st.frames) >= self.max_depth:
            return True
        if any(fr.func.qual == f.qual for fr in st.frames):
            return True
        return False

    def call_func(self, f, args, kws, st, node, selft=None, outer=None):
        if f.cls is not None and selft is None and not f.is_static and not f.is_classmethod and args:
            selft = args[0]
        if f.is_classmethod and selft is not None and selft.op in ("self", "new"):
            args = [mk("class", selft.a[0])] + list(args[1:])
        env = self.bind(f, args, kws, st, node)
        if self.is_opaque(f, st):
            return self.opaque_call(f, env, st, node)
        self.inlined.add(f.qual)
        self.tick()
        self.emit(st, "enter", node, f.qual, tuple(sorted(env.items())))
        st.frames.append(Frame(env, f, f.cls, selft, outer))
        depth = len(st.frames)
        out = []
        for s, o in self.block(f.node.body, st):
            assert len(s.frames) == depth, (f.qual, len(s.frames), depth)
            s.frames.pop()
            if o is None:
                self.emit(s, "exit", node, f.qual, NONE)
                out.append((s, NONE))
            elif o[0] == "ret":
                self.emit(s, "exit", node, f.qual, o[1])
                out.append((s, o[1]))
            elif o[0] == "exc":
                self.emit(s, "unwind", node, f.qual)
                self.sink.append((s, o[1]))
        return out

    def opaque_call(self, f, env, st, node):
        b = tuple(sorted(env.items()))
        n = self.fresh(st, ("oc", f.qual)) if (f.is_kernel or M.mutated_params(self.proj, f)) else 0
        t = mk("call", f.qual, (), b) if not n else mk("call", f.qual, (const(n),), b)
        self.emit(st, "call", node, f.qual, b, t)
        for p in sorted(M.mutated_params(self.proj, f)):
            v = env.get(p)
            if v is not None and isinstance(v, T):
                self.mutate(st, v, "call:" + f.qual + ":" + p, NONE, t, node)
        return [(st, t)]

    def instantiate(self, c, args, kws, st, node):
        k = self.proj.find_class(c.a[0])
        if k is None:
            return [(st, mk("alloc", c.a[0], tuple(args), tuple(kws), self.site(node), self.fresh(st, id(node))))]
        o = mk("new", k.qual, self.site(node), self.fresh(st, id(node)))
        init = self.proj.method(k, "__init__") or self.proj.method(k, "__cinit__")
        if init is not None:
            env = self.bind(init, [o] + list(args), kws, st, node)
            self.emit(st, "new", node, o, tuple(sorted((a, b) for a, b in env.items())))
            if init.qual in self.opaque or k.qual in self.opaque or k.name in self.opaque:
                return [(st, o)]
            return [(s, o) for s, _ in self.call_func(init, [o] + list(args), kws, st, node, selft=o)]
        self.emit(st, "new", node, o, tuple(("arg%d" % i, a) for i, a in enumerate(args)) + tuple(kws))
        return [(st, o)]

    # ------------------------------------------------------------------ library calls
    def call_lib(self, d, args, kws, st, node):
        d = M.ALIASES.get(d, d)
        h = getattr(self, "l_" + d.replace(".", "_"), None)
        if h is not None:
            r = h(args, kws, st, node)
            if r is not None:
                return r
        if d.startswith(M.NEUTRAL_PREFIX) or d.rsplit(".", 1)[0].rsplit(".", 1)[-1] in M.NEUTRAL_RECV:
            return [(st, mk("neutral", d, self.site(node)))]
        kws_t = tuple(sorted(kws, key=lambda x: x[0]))
        args_t = tuple(args)
        bn = M.blas_name(d)
        if d in M.ALLOC_NP or d in M.ALLOC_OTHER or d in M.SPARSE_CTOR or d.startswith("implicit.gpu."):
            t = mk("alloc", d, args_t, kws_t, self.site(node), self.fresh(st, id(node)))
            if d.startswith("libc.") or d.startswith("implicit.gpu."):
                self.emit(st, "alloc" if d.startswith("libc.") else "call", node, *((t,) if d.startswith("libc.") else (d, (args_t, kws_t), t)))
            elif self.hook is not None and d in M.SPARSE_CTOR:
                self.hook(st, "pure", node, (d, (args_t, kws_t), t))
            for i in M.LIB_MUT.get(d, ()):
                if i < len(args):
                    self.mutate(st, args[i], d + ":%d" % i, NONE, t, node)
            return [(st, t)]
        if d == "libc.stdlib.free":
            self.emit(st, "free", node, args[0] if args else NONE)
            return [(st, NONE)]
        if bn and not M.BLAS_OUT.get(bn):        # reads memory: the result depends on what was written there before
            n = sum(st.ver.get(mk("mem", a), 0) for a in set(args_t) if isinstance(a, type(NONE)))
            if n:
                kws_t = kws_t + (("@", const(n)),)
        t = mk("call", d, args_t, kws_t)
        if bn and not M.BLAS_OUT.get(bn):
            self.emit(st, "call", node, d, (args_t, kws_t), t)
        muts = M.LIB_MUT.get(d, M.BLAS_OUT.get(bn, []) if bn else [])
        muts = M.overwritten(d, args, kws) or muts
        out_kw = M.kwget(kws, "out")
        impure = d in M.IMPURE or d.startswith("numpy.random") or not d.startswith(M.PURE_PREFIX) or muts or out_kw is not None
        if impure:
            if d.startswith(("numpy.random", "random.", "faiss.", "annoy.", "nmslib.")):
                n = self.fresh(st, ("r", d))
                if n:
                    t = mk("call", d, args_t + (mk("nth", n),), kws_t)
            self.emit(st, "call", node, d, (args_t, kws_t), t)
        for i in muts:
            if i < len(args):
                v = args[i]
                if v.op == "addr" and v.a[1] is not None:
                    fd, nm = v.a[1]
                    if fd < len(st.frames) and nm in st.frames[fd].env:
                        st.frames[fd].env[nm] = mk("out", t, i)
                    continue
                self.mutate(st, v, d + ":%d" % i, NONE, t, node)
        if out_kw is not None and out_kw is not NONE:
            self.mutate(st, out_kw, d + ":out", NONE, t, node)
            return [(st, out_kw)]
        return [(st, t)]

    def l_builtins_len(self, args, kws, st, node):
        x = args[0]
        if x.op == "tuple":
            return [(st, const(len(x.a[0])))]
        if x.op == "list" and (x, "[]") in st.heap:
            return [(st, const(len(st.heap[(x, "[]")].a[0])))]
        return [(st, mk("call", "builtins.len", (M.ident(x),) if M.ident(x).op not in ("list", "dict") else (x,), ()))]

    def l_builtins_range(self, args, kws, st, node):
        lo, hi, step = const(0), None, const(1)
        if len(args) == 1:
            hi = args[0]
        elif len(args) >= 2:
            lo, hi = args[0], args[1]
            if len(args) == 3:
                step = args[2]
        return [(st, mk("range", lo, hi, step, "seq"))]

    def l_cython_parallel_prange(self, args, kws, st, node):
        r = self.l_builtins_range(args, [], st, node)[0][1]
        self.emit(st, "prange", node, tuple(sorted((k, v) for k, v in kws if k)))
        return [(st, mk("range", r.a[0], r.a[1], r.a[2], "par"))]

    def l_builtins_isinstance(self, args, kws, st, node):
        c = args[1]
        if c.op == "tuple":
            t = None
            for x in c.a[0]:
                if self.decide(mk("isinst", args[0], x), st) is True:
                    t = TRUE
            return [(st, t or mk("isinst", args[0], c))]
        return [(st, mk("isinst", args[0], c))]

    def l_builtins_getattr(self, args, kws, st, node):
        if len(args) == 2 and is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), st, node)
        if len(args) == 3 and is_const(args[1]):
            o = M.ident(args[0])
            if (o, cval(args[1])) in st.heap:
                return [(st, st.heap[(o, cval(args[1]))])]
            return [(st, mk("call", "builtins.getattr", tuple(args), ()))]
        return None

    def l_builtins_setattr(self, args, kws, st, node):
        if is_const(args[1]) and isinstance(cval(args[1]), str):
            self.setattr(st, args[0], cval(args[1]), args[2], node)
        else:
            self.emit(st, "setdyn", node, args[0], args[1], args[2])
        return [(st, NONE)]

    def l_builtins_dict(self, args, kws, st, node):
        t = mk("dict", self.site(node), self.fresh(st, ("d", id(node))))
        ents, maybe = [], False
        if args:
            c = st.heap.get((M.ident(args[0]), "{}"))
            if c is not None:
                ents, maybe = list(c.a[0]), c.a[1]
            elif args[0].op == "tuple" or (args[0].op == "list" and (args[0], "[]") in st.heap):
                for p in self.known_elems(args[0], st) or ():
                    if p.op == "tuple" and len(p.a[0]) == 2:
                        ents.append((p.a[0][0], p.a[0][1]))
            else:
                ents, maybe = [(const("**"), args[0])], True
        for k, v in kws:
            kk = const(k)
            if k in ("**", "**maybe"):
                maybe = True
            ents = [(a, b) for a, b in ents if a is not kk] + [(kk, v)]
        st.heap[(t, "{}")] = mk("dents", tuple(ents), maybe)
        return [(st, t)]

    def l_builtins_tuple(self, args, kws, st, node):
        if not args:
            return [(st, mk("tuple", ()))]
        k = self.known_elems(args[0], st)
        return [(st, mk("tuple", k) if k is not None else mk("call", "builtins.tuple", tuple(args), ()))]

    def l_builtins_list(self, args, kws, st, node):
        if args:
            k = self.known_elems(args[0], st)
            if k is None:
                return None
        else:
            k = ()
        t = mk("list", k, self.site(node), self.fresh(st, ("l", id(node))))
        st.heap[(t, "[]")] = mk("elems", k)
        return [(st, t)]

    def _minmax(self, d, args, kws, st):
        if len(args) == 2 and not kws:
            a, b = args
            if is_const(a) and is_const(b):
                try:
                    return [(st, const((min if d.endswith("min") else max)(cval(a), cval(b))))]
                except TypeError:
                    pass
            if a is b:
                return [(st, a)]
            return [(st, mk("call", d, tuple(sorted(args, key=lambda t: t.uid)), ()))]
        return None

    def l_builtins_min(self, args, kws, st, node):
        return self._minmax("builtins.min", args, kws, st)

    def l_builtins_max(self, args, kws, st, node):
        return self._minmax("builtins.max", args, kws, st)

    def l_functools_partial(self, args, kws, st, node):
        return [(st, mk("partial", args[0], tuple(args[1:]), tuple(sorted(kws, key=lambda x: x[0]))))]

    def l_cython_operator_dereference(self, args, kws, st, node):
        return [(st, args[0])]

    def l_builtins_bool(self, args, kws, st, node):
        if len(args) == 1:
            d = self.decide(args[0], st)
            if d is not None:
                return [(st, const(d))]
        return None

    def l_numpy_isscalar(self, args, kws, st, node):
        x = args[0]
        k = M.kind(self, x, None)
        if k in ("arr", "list", "tuple", "sparse", "dict"):
            return [(st, FALSE)]
        if k == "num" and x.op != "call":
            return [(st, TRUE)]
        y = M.ident(x)
        if y.op == "sub" and M.kind(self, y.a[0], None) in ("arr", None) and y.a[1].op == "param" and "norm" in str(y.a[0]):
            # one dimensional norm vectors: an element per id
            return [(st, mk("call", "numpy.isscalar", (y.a[1],), ()))]
        return None

    # ------------------------------------------------------------------ methods of values outside the repository
    def call_method(self, b, name, args, kws, st, node):
        o = M.ident(b)
        kws_t = tuple(sorted(kws, key=lambda x: x[0]))
        args_t = tuple(args)
        if o.op == "neutral" or (o.op == "glob" and o.a[0].rsplit(".", 1)[-1] in M.NEUTRAL_RECV):
            return [(st, mk("neutral", name, self.site(node)))]
        if o.op == "superattr" or (o.op == "super"):
            return [(st, NONE)]
        dents = st.heap.get((o, "{}"))
        if dents is not None and name in ("update", "pop", "get", "copy", "setdefault", "clear", "items", "keys", "values"):
            r = self.dict_method(o, dents, name, args, kws, st, node)
            if r is not None:
                return r
        if o.op == "list" and (o, "[]") in st.heap and name in ("append", "extend"):
            c = st.heap[(o, "[]")]
            new = None
            if name == "append":
                new = c.a[0] + (args[0],)
            else:
                k = self.known_elems(args[0], st)
                if k is not None:
                    new = c.a[0] + tuple(k)
            if new is not None and len(new) < 64:
                st.heap[(o, "[]")] = mk("elems", new)
                self.emit(st, "mut", node, o, name, NONE, args[0])
                return [(st, NONE)]
            st.heap.pop((o, "[]"), None)
        if name == "copy" and o.op == "attr" and o.a[1] == "__dict__":
            t = mk("dict", self.site(node), self.fresh(st, ("d", id(node))))
            st.heap[(t, "{}")] = mk("dents", ((const("**"), o),), True)
            return [(st, t)]
        rng = name in M.RNG_METHODS
        if name in M.MUT_METHODS and not (name in ("add", "update") and self.neutral_obj(o)):
            t = mk("meth", b, name, args_t, kws_t)
            self.emit(st, "call", node, "method:" + name, (b, args_t, kws_t), t)
            self.mutate(st, b, "." + name, NONE, t, node)
            if name in ("pop", "setdefault", "popitem"):
                return [(st, mk("meth", b, name, args_t, kws_t))]
            return [(st, t if rng else NONE)]
        if name in M.PURE_METHODS and not rng:
            t = mk("meth", b, name, args_t, kws_t)
            if self.hook is not None:
                self.hook(st, "pure", node, ("method:" + name, (b, args_t, kws_t), t))
            return [(st, t)]
        if self.neutral_obj(o):
            return [(st, mk("neutral", name, self.site(node)))]
        n = self.fresh(st, ("m", o, name))
        t = mk("meth", b, name, args_t + ((mk("nth", n),) if n else ()), kws_t)
        self.emit(st, "call", node, "method:" + name, (b, args_t, kws_t), t)
        for i in M.METHOD_ARG_MUT.get(name, ()):
            if i < len(args):
                self.mutate(st, args[i], "." + name + ":%d" % i, NONE, t, node)
        if name in ("fit", "build", "addDataPointBatch", "createIndex", "train", "load_state", "partial_fit_users", "partial_fit_items"):
            st.ver[o] = st.ver.get(o, 0) + 1
        for p, v in kws:
            if p == "out" and v is not NONE:
                self.mutate(st, v, "." + name + ":out", NONE, t, node)
        return [(st, t)]

    def neutral_obj(self, o):
        return o.op == "neutral" or (o.op == "enter" and self.neutral_obj(o.a[0]))

    def dict_method(self, o, c, name, args, kws, st, node):
        ents = list(c.a[0])
        if name == "get" and args:
            for k, v in ents:
                if k is args[0]:
                    return [(st, v)]
            if not c.a[1] and is_const(args[0]):
                return [(st, args[1] if len(args) > 1 else NONE)]
            return None
        if name == "copy":
            t = mk("dict", self.site(node), self.fresh(st, ("d", id(node))))
            st.heap[(t, "{}")] = c
            return [(st, t)]
        if name == "pop" and args:
            self.emit(st, "mut", node, o, ".pop", args[0], NONE)
            for k, v in ents:
                if k is args[0]:
                    st.heap[(o, "{}")] = mk("dents", tuple((a, b) for a, b in ents if a is not k), c.a[1])
                    return [(st, v)]
            if not c.a[1]:
                return [(st, args[1] if len(args) > 1 else NONE)]
            st.heap[(o, "{}")] = mk("dents", tuple(ents) + ((mk("popped", args[0]), NONE),), True)
            return [(st, mk("meth", o, "pop", tuple(args), ()))]
        if name == "update":
            maybe = c.a[1]
            add = []
            if args:
                c2 = st.heap.get((M.ident(args[0]), "{}"))
                if c2 is not None:
                    add, maybe = list(c2.a[0]), maybe or c2.a[1]
                else:
                    add, maybe = [(const("**"), args[0])], True
            add += [(const(k), v) for k, v in kws]
            for k, v in add:
                ents = [(a, b) for a, b in ents if a is not k] + [(k, v)]
            st.heap[(o, "{}")] = mk("dents", tuple(ents), maybe)
            self.emit(st, "mut", node, o, ".update", NONE, NONE)
            return [(st, NONE)]
        return None

    # ------------------------------------------------------------------ writes
    def setattr(self, st, b, attr, val, node):
        o = M.ident(b)
        old = st.heap.get((o, attr))
        if old is None:
            old = mk("attr", o, attr)
        st.heap[(o, attr)] = val
        self.emit(st, "set", node, o, attr, val, old)

    def mutate(self, st, target, how, idx, val, node):
        self.emit(st, "mut", node, target, how, idx, val)
        if not self.traced:
            return
        t = target
        if t.op in ("alloc", "addr"):
            m = mk("mem", t)
            st.ver[m] = st.ver.get(m, 0) + 1
        if t.op in ("alloc",) and t.a[0].startswith(("libc.", "new:")):
            return
        if t.op in ("addr", "const", "func", "class", "glob"):
            return
        if how == "setitem":
            new = mk("upd", t, idx, val)
        else:
            new = mk("inpl", t, how, idx, val)
        self.rebind(st, t, new)

    def rebind(self, st, old, new):
        if not self.traced:
            return
        for f in st.frames:
            for k, v in f.env.items():
                if v is old:
                    f.env[k] = new
        hit = False
        for k, v in st.heap.items():
            if v is old:
                st.heap[k] = new
                hit = True
        if old.op == "attr" and not hit and len(old.a) >= 2:
            st.heap.setdefault((M.ident(old.a[0]), old.a[1]), new)
        o = M.ident(old)
        if o.op == "attr" and (M.ident(o.a[0]), o.a[1]) not in st.heap:
            st.heap[(M.ident(o.a[0]), o.a[1])] = new

    def assign(self, target, v, st, node):
        """-> [states]"""
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.eval(target.value, st):
                self.setattr(s, b, target.attr, v, node)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.eval(target.value, st):
                for s2, i in self.index(target.slice, s):
                    if self.hook is not None:
                        self.hook(s2, "access", target, (b, i))
                    self.store(s2, b, i, v, node)
                    out.append(s2)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
            if v.op == "tuple" and not star and len(v.a[0]) == n:
                vals = v.a[0]
            else:
                vals = []
                for i in range(n):
                    if star and i >= star[0]:
                        vals.append(mk("unpack", v, i))
                    else:
                        vals.append(self.subscript(v, const(i), st))
            live = [st]
            for t, x in zip(target.elts, vals):
                nxt = []
                for s in live:
                    nxt.extend(self.assign(t.value if isinstance(t, ast.Starred) else t, x, s, node))
                live = nxt
            return live
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        if isinstance(target, ast.Call):  # dereference(x) = ...
            for s, b in self.evs(target.args, st):
                if b:
                    self.mutate(s, b[0], "setitem", const(0), v, node)
            return [st]
        self.note_unknown("assign:" + type(target).__name__, node)
        return [st]

    def store(self, st, b, i, v, node):
        o = M.ident(b)
        c = st.heap.get((o, "{}"))
        if c is not None:
            ents = [(a, x) for a, x in c.a[0] if a is not i] + [(i, v)]
            st.heap[(o, "{}")] = mk("dents", tuple(ents), c.a[1])
            self.emit(st, "mut", node, o, "setitem", i, v)
            return
        if o.op == "list":
            st.heap.pop((o, "[]"), None)
        self.mutate(st, b, "setitem", i, v, node)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        live, done = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for y, o in self.stmt(s, x):
                    if o is None:
                        nxt.append(y)
                    else:
                        done.append((y, o))
            live = self.dedupe(nxt)
            if not live:
                break
        return [(x, None) for x in live] + done

    def stmt(self, s, st):
        saved = self.sink
        self.sink = []
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unknown("stmt:" + type(s).__name__, s)
            outs = [(st, None)]
        else:
            outs = m(s, st)
        exc, self.sink = self.sink, saved
        return outs + [(x, ("exc", v)) for x, v in exc]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, None) for x, _ in self.eval(s.value, st)]

    def s_Pass(self, s, st):
        return [(st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk("opaque", "class", s.name)
        return [(st, None)]

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st, s)
        return [(st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.dotted(a.name)
            else:
                st.env[a.name.split(".")[0]] = glob(a.name.split(".")[0])
        return [(st, None)]

    def s_ImportFrom(self, s, st):
        from .project import resolve_from
        mod = st.frames[-1].func.mod
        pkg = mod.name if mod.path.endswith("__init__.py") else mod.name.rpartition(".")[0]
        base = resolve_from(s, pkg)
        for a in s.names:
            st.env[a.asname or a.name] = self.dotted(base + "." + a.name)
        return [(st, None)]

    def s_Assign(self, s, st):
        out = []
        for x, v in self.eval(s.value, st):
            live = [x]
            for t in s.targets:
                nxt = []
                for y in live:
                    nxt.extend(self.assign(t, v, y, s))
                live = nxt
            out.extend((y, None) for y in live)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            if isinstance(s.target, ast.Name) and s.target.id not in st.env:
                st.env[s.target.id] = mk("undef", s.target.id)
            return [(st, None)]
        out = []
        for x, v in self.eval(s.value, st):
            out.extend((y, None) for y in self.assign(s.target, v, x, s))
        return out

    def s_AugAssign(self, s, st):
        op = BINOP[type(s.op)]
        out = []
        if isinstance(s.target, ast.Name):
            ct = st.frames[-1].func.ctypes.get(s.target.id) or st.frames[-1].func.argtypes.get(s.target.id)
            cnum = ct is not None and "[" not in ct and "*" not in ct and ct not in ("object",)
            for x, r in self.eval(s.value, st):
                old = self.name(s.target.id, x)
                k = M.kind(self, old, x)
                if k in ("num", "str", "bool", "tuple") or cnum or (old.op == "undef"):
                    x.env[s.target.id] = self.bin(op, old, r)
                else:
                    self.aug_mut(x, old, op, r, s)
                    if x.env.get(s.target.id) is old:
                        x.env[s.target.id] = mk("inpl", old, op + "=", NONE, r)
                out.append((x, None))
            return out
        if isinstance(s.target, ast.Attribute):
            for x, b in self.eval(s.target.value, st):
                for y, old in self.getattr(b, s.target.attr, x, s):
                    for z, r in self.eval(s.value, y):
                        k = M.kind(self, old, z)
                        if k in ("num", "str", "bool"):
                            self.setattr(z, b, s.target.attr, self.bin(op, old, r), s)
                        else:
                            o = M.ident(b)
                            z.heap.setdefault((o, s.target.attr), old)
                            self.aug_mut(z, old, op, r, s)
                        out.append((z, None))
            return out
        if isinstance(s.target, ast.Subscript):
            for x, b in self.eval(s.target.value, st):
                for y, i in self.index(s.target.slice, x):
                    for z, r in self.eval(s.value, y):
                        if self.hook is not None:
                            self.hook(z, "access", s.target, (b, i))
                        old = self.subscript(b, i, z)
                        self.emit(z, "mut", s, b, "aug" + op, i, r)
                        new = mk("upd", b, i, self.bin(op, old, r))
                        self.rebind(z, b, new)
                        out.append((z, None))
            return out
        return [(st, None)]

    def aug_mut(self, st, old, op, r, node):
        self.emit(st, "mut", node, old, "aug" + op, NONE, r)
        self.rebind(st, old, mk("inpl", old, op + "=", NONE, r))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                v = st.env.get(t.id)
                if v is not None:
                    self.emit(st, "free", s, v)
            elif isinstance(t, ast.Attribute):
                for x, b in self.eval(t.value, st):
                    v = x.heap.get((M.ident(b), t.attr), mk("attr", b, t.attr))
                    self.emit(x, "free", s, v)
            elif isinstance(t, ast.Subscript):
                for x, b in self.eval(t.value, st):
                    for y, i in self.index(t.slice, x):
                        o = M.ident(b)
                        c = y.heap.get((o, "{}"))
                        if c is not None:
                            rest = tuple((a, v) for a, v in c.a[0] if a is not i)
                            if len(rest) == len(c.a[0]):
                                rest = rest + ((mk("popped", i), NONE),)
                            y.heap[(o, "{}")] = mk("dents", rest, c.a[1])
                            self.emit(y, "mut", s, o, "delitem", i, NONE)
                        else:
                            self.emit(y, "mut", s, b, "delitem", i, NONE)
        return [(st, None)]

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("ret", v)) for x, v in self.eval(s.value, st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            return [(st, ("exc", mk("reraise")))]
        out = []
        for x, v in self.eval(s.exc, st):
            self.emit(x, "raise", s, v)
            out.append((x, ("exc", v)))
        return out

    def s_Assert(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            out.append((x, None) if b else (x, ("exc", glob("builtins.AssertionError"))))
        return out

    def s_Break(self, s, st):
        return [(st, ("break",))]

    def s_Continue(self, s, st):
        return [(st, ("cont",))]

    def s_If(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            body = s.body if b else s.orelse
            if body:
                out.extend(self.block(body, x))
            else:
                out.append((x, None))
        return out

    def element(self, it, node, k, st):
        sid = self.site(node)
        if it.op == "range":
            return mk("lv", sid, k, it.a[0], it.a[1], it.a[2], it.a[3])
        if it.op == "call" and it.a[0] == "builtins.enumerate" and it.a[1]:
            x = it.a[1][0]
            start = it.a[1][1] if len(it.a[1]) > 1 else M.kwget(it.a[2], "start", const(0))
            if x.op == "range":
                i = mk("lv", sid, k, const(0), self.bin("-", x.a[1], x.a[0]) if x.a[0] is not const(0) else x.a[1], const(1), "seq")
                el = self.bin("+", x.a[0], i) if not (is_const(x.a[0]) and cval(x.a[0]) == 0) else i
                if is_const(start) and cval(start) == 0:
                    return mk("tuple", (i, el))
            i = mk("lv", sid, k, start, mk("call", "builtins.len", (M.ident(x),), ()), const(1), "seq")
            return mk("tuple", (i, self.element_at(x, sid, k, i)))
        if it.op == "call" and it.a[0] == "builtins.zip" and it.a[1]:
            i = mk("lv", sid, k, const(0), mk("call", "builtins.len", (M.ident(it.a[1][0]),), ()), const(1), "seq")
            return mk("tuple", tuple(self.element_at(x, sid, k, i) for x in it.a[1]))
        if it.op == "neutral" or self.neutral_obj(it):
            return mk("elem", it, sid, k)
        return self.element_at(it, sid, k, None)

    def element_at(self, it, sid, k, i):
        if it.op == "range":
            if i is not None:
                lo = it.a[0]
                return i if is_const(lo) and cval(lo) == 0 else self.bin("+", lo, i)
            return mk("lv", sid, k, it.a[0], it.a[1], it.a[2], it.a[3])
        if it.op in ("call",) and it.a[0] in ("builtins.enumerate",):
            return mk("elem", it, sid, k)
        if i is not None and M.kind(self, it, None) in ("arr", "sparse", "list", None) and it.op in ("param", "attr", "alloc", "sub", "call", "meth"):
            return mk("sub", it, i)
        return mk("elem", it, sid, k)

    def loop_body(self, s, st, k, bindfn):
        """run one iteration; -> (continuing states, finished outcomes, broken states)"""
        cont, done, brk = [], [], []
        for x in bindfn(st, k):
            self.emit(x, "iter", s, self.site(s), k)
            for y, o in self.block(s.body, x):
                if o is None or o[0] == "cont":
                    cont.append(y)
                elif o[0] == "break":
                    brk.append(y)
                else:
                    done.append((y, o))
        return self.dedupe(cont), done, brk

    def s_For(self, s, st):
        out = []
        for x, it in self.eval(s.iter, st):
            els = self.known_elems(it, x)
            depth = sum(1 for c in x.ctx if c[0] == "loop")
            self.emit(x, "loop", s, self.site(s), it)
            x.ctx = x.ctx + (("loop", self.site(s)),)
            n = len(els) if els is not None else self.loops
            if els is None and depth >= 1:
                n = min(n, 1)
            if els is None and self.unroll is not None:
                u = self.unroll(s, depth)
                n = u if u is not None else n

            def bindfn(z, k, els=els, it=it):
                v = els[k] if els is not None else self.element(it, s, k, z)
                return self.assign(s.target, v, z, s)

            exits, broke = [], []
            live = [x]
            if els is None and (self.zero_iter or n == 0):
                exits.append(x.copy())
            for k in range(n):
                nxt = []
                for z in live:
                    c, d, b = self.loop_body(s, z, k, bindfn)
                    nxt.extend(c)
                    for y, o in d:
                        y.ctx = y.ctx[: len(x.ctx) - 1]
                        out.append((y, o))
                    broke.extend(b)
                live = self.dedupe(nxt)
                if els is None:
                    exits.extend(y.copy() for y in live)
            if els is not None:
                exits = live
            for y in exits:
                y.ctx = st.ctx if False else tuple(y.ctx[:-1])
                self.emit(y, "loopend", s, self.site(s))
                if s.orelse:
                    out.extend(self.block(s.orelse, y))
                else:
                    out.append((y, None))
            for y in broke:
                y.ctx = tuple(y.ctx[:-1])
                self.emit(y, "loopend", s, self.site(s), "break")
                out.append((y, None))
        return self.dd(out)

    def dd(self, outs):
        live = self.dedupe([s for s, o in outs if o is None])
        return [(s, None) for s in live] + [(s, o) for s, o in outs if o is not None]

    def s_While(self, s, st):
        f = counted(s)
        if f is not None and f.target.id in st.env:
            return self.s_For(f, st)
        out = []
        self.emit(st, "loop", s, self.site(s), mk("while", self.site(s)))
        base = st.ctx
        st.ctx = st.ctx + (("loop", self.site(s)),)
        live = [st]
        most = self.loops
        if self.unroll is not None:
            u = self.unroll(s, sum(1 for c in base if c[0] == "loop"))
            most = u if u is not None else most
        for k in range(most + 1):
            nxt = []
            for z in live:
                for y, b in self.cond(s.test, z):
                    if not b:
                        y.ctx = base
                        self.emit(y, "loopend", s, self.site(s))
                        out.append((y, None))
                        continue
                    if k == most:
                        # assume the loop ends here
                        y.ctx = base
                        self.emit(y, "loopend", s, self.site(s))
                        out.append((y, None))
                        continue
                    c, d, br = self.loop_body(s, y, k, lambda q, kk: [q])
                    nxt.extend(c)
                    for q, o in d:
                        q.ctx = base
                        out.append((q, o))
                    for q in br:
                        q.ctx = base
                        self.emit(q, "loopend", s, self.site(s), "break")
                        out.append((q, None))
            live = self.dedupe(nxt)
        return self.dd(out)

    def s_With(self, s, st):
        out = []
        live = [(st, ())]
        for it in s.items:
            nxt = []
            for x, cs in live:
                for y, v in self.eval(it.context_expr, x):
                    if it.optional_vars is not None:
                        ent = v if v.op in ("neutral",) else mk("enter", v)
                        for z in self.assign(it.optional_vars, ent, y, s):
                            nxt.append((z, cs + (v,)))
                    else:
                        nxt.append((y, cs + (v,)))
            live = nxt
        for x, cs in live:
            cs2 = tuple(c for c in cs if c.op != "neutral")
            for c in cs2:
                self.emit(x, "with", s, c)
            depth = x.ctx
            x.ctx = x.ctx + tuple(("with", c) for c in cs2)
            for y, o in self.block(s.body, x):
                y.ctx = depth
                for c in reversed(cs2):
                    self.emit(y, "endwith", s, c)
                out.append((y, o))
        return self.dd(out)

    def s_Try(self, s, st):
        start = st.copy() if s.handlers else None
        self.emit(st, "try", s, self.site(s), bool(s.finalbody))
        res = self.block(s.body, st)
        outs = []
        for x, o in res:
            if s.handlers and (o is None or o[0] != "exc"):
                self.emit(x, "endtry", s, self.site(s))
            if o is not None and o[0] == "exc" and s.handlers:
                outs.extend(self.handle(s, x, o[1]))
            elif o is None and s.orelse:
                outs.extend(self.block(s.orelse, x))
            else:
                outs.append((x, o))
        if start is not None:
            for h in s.handlers:
                y = start.copy()
                self.emit(y, "except", h, mk("implicit", self.site(s)), self.handler_names(h))
                if h.name:
                    y.env[h.name] = mk("exc", self.site(h))
                for z, o in self.block(h.body, y):
                    self.emit(z, "endexcept", h)
                    outs.append((z, o))
        if s.finalbody:
            fin = []
            for x, o in outs:
                self.emit(x, "finally", s, self.site(s))
                for y, o2 in self.block(s.finalbody, x):
                    fin.append((y, o2 if o2 is not None else o))
            outs = fin
        return self.dd(outs)

    @staticmethod
    def handler_names(h):
        if h.type is None:
            return ()
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return tuple(ast.unparse(t).rsplit(".", 1)[-1] for t in ts)

    def exc_name(self, v):
        if v.op in ("call", "alloc"):
            return v.a[0].rsplit(".", 1)[-1]
        if v.op in ("glob", "class"):
            return v.a[0].rsplit(".", 1)[-1]
        if v.op == "new":
            return v.a[0].rsplit(".", 1)[-1]
        return None

    def handle(self, s, st, v):
        n = self.exc_name(v)
        outs = []
        for h in s.handlers:
            names = None
            if h.type is not None:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [ast.unparse(t).rsplit(".", 1)[-1] for t in ts]
            m = None
            if names is None or "Exception" in names or "BaseException" in names:
                m = True
            elif n is not None:
                m = n in names
                if not m:
                    c = getattr(_bi, n, None)
                    for q in names:
                        p = getattr(_bi, q, None)
                        if isinstance(c, type) and isinstance(p, type) and issubclass(c, p):
                            m = True
            if m is False:
                continue
            y = st if m else st.copy()
            self.emit(y, "except", h, v, self.handler_names(h))
            if h.name:
                y.env[h.name] = v
            for z, o in self.block(h.body, y):
                self.emit(z, "endexcept", h)
                if o is not None and o[0] == "exc" and o[1].op == "reraise":
                    o = ("exc", v)
                outs.append((z, o))
            if m:
                return outs
        outs.append((st, ("exc", v)))
        return outs

    # ------------------------------------------------------------------ entry
    def run(self, func, cls=None, params=None, facts=None, heap=None):
        """analyse one function as an entry point -> [Path]"""
        self.analysed.add((cls.qual + "::" if cls else "") + func.qual)
        st = State()
        env = {}
        selft = None
        ps = list(func.params)
        if func.cls is not None and not func.is_static and ps:
            selft = mk("class", (cls or func.cls).qual) if func.is_classmethod else mk("self", (cls or func.cls).qual)
            env[ps[0]] = selft
            ps = ps[1:]
        self.param_kinds = {}
        for p in ps + func.kwonly:
            env[p] = mk("param", p)
            ct = func.argtypes.get(p)
            d = func.defaults.get(p)
            if ct:
                if "[" in ct and "<" not in ct:
                    self.param_kinds[p] = "arr"
                elif "*" not in ct and ct not in ("object",):
                    self.param_kinds[p] = "num"
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                self.param_kinds[p] = "bool" if isinstance(d.value, bool) else "num"
            elif isinstance(d, ast.Constant) and isinstance(d.value, str):
                self.param_kinds[p] = "str"
            elif isinstance(d, ast.UnaryOp):
                self.param_kinds[p] = "num"
        if func.vararg:
            env[func.vararg] = mk("tuple", (mk("star", mk("param", "*" + func.vararg)),))
        if func.kwarg:
            env[func.kwarg] = mk("param", "**" + func.kwarg)
        if params:
            env.update(params)
        st.frames.append(Frame(env, func, func.cls, selft))
        for t, v in (facts or {}).items():
            self.assume(st, t, v)
        if heap:
            st.heap.update(heap)
        self.sink = []
        self.steps = 0
        try:
            res = self.block(func.node.body, st)
        except Budget:
            return []
        out = []
        for s, o in res:
            if o is None:
                out.append(Path(s, "ret", NONE))
            elif o[0] == "ret":
                out.append(Path(s, "ret", o[1]))
            elif o[0] == "exc":
                out.append(Path(s, "exc", o[1]))
        return out


def p(name):
    return mk("param", name)


def isnone(t):
    return mk("isnone", t)


def truth(t):
    return mk("truth", t)


def isscalar(t):
    return mk("truth", mk("call", "numpy.isscalar", (t,), ()))


__all__ = ["Engine", "Path", "Ev", "p", "isnone", "truth", "isscalar", "contains"]


def counted(s):
    """the for loop over a range that a counting while loop is, if it is one (one node per loop)"""
    if not hasattr(s, "_counted"):
        s._counted = as_for(s)
    return s._counted


def as_for(s):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not (isinstance(a, ast.Name) and isinstance(op, (ast.Lt, ast.LtE))):
        return None
    i = a.id
    steps, names = [], set()
    for x in s.body:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
                if n.id == i:
                    steps.append(x)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                r = n.func.value
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name):
                    names.add("call:" + r.id)
    if len(steps) != 1:
        return None
    x = steps[0]
    one = lambda v: isinstance(v, ast.Constant) and v.value == 1 and not isinstance(v.value, bool)
    if isinstance(x, ast.AugAssign):
        if not (isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and one(x.value)):
            return None
    elif isinstance(x, ast.Assign):
        v = x.value
        if not (len(x.targets) == 1 and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add)
                and (isinstance(v.left, ast.Name) and v.left.id == i and one(v.right)
                     or isinstance(v.right, ast.Name) and v.right.id == i and one(v.left))):
            return None
    else:
        return None
    for y in s.body[:s.body.index(x)]:
        if any(isinstance(n, ast.Continue) for n in ast.walk(y)):
            return None
    for n in ast.walk(b):
        if isinstance(n, ast.Name) and (n.id in names or n.id == i or "call:" + n.id in names):
            return None
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len"):
            return None
    at = lambda n: ast.copy_location(n, s)
    if isinstance(op, ast.LtE):
        b = at(ast.BinOp(left=b, op=ast.Add(), right=at(ast.Constant(value=1))))
    it = at(ast.Call(func=at(ast.Name(id="range", ctx=ast.Load())), args=[at(ast.Name(id=i, ctx=ast.Load())), b], keywords=[]))
    end = at(ast.Assign(targets=[at(ast.Name(id=i, ctx=ast.Store()))], value=b))
    return at(ast.For(target=at(ast.Name(id=i, ctx=ast.Store())), iter=it, body=s.body, orelse=[end] + list(s.orelse)))
