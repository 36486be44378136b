"""C10: parallel native loops do not race on shared results."""
import ast

from .. import api
from .. import model as M
from .. import native
from ..terms import cval, is_const, walk
from .c04 import flat
from .c07 import where

MINIMUM = {"regions": 1, "writes": 5}

READS = {"size", "begin", "end", "empty", "data", "at", "nnz", "front", "back", "capacity", "cbegin", "cend"}
LOCKS = {"threading.RLock", "threading.Lock", "_thread.allocate_lock", "multiprocessing.Lock", "multiprocessing.RLock"}
HOGWILD = "implicit.cpu.bpr"


def check(ctx):
    proj = ctx.proj
    ctx.rule("owned", "inside a parallel region every write goes to memory allocated by the same thread in that region, or to an element of a shared array selected by the "
             "parallel loop's own index so that no two iterations can write the same element")
    ctx.rule("read-own", "an array written inside a parallel loop is only read there at the iteration's own row")
    ctx.rule("private", "a scalar assigned in a parallel loop is assigned in the iteration before it is read (it does not carry a value between iterations)")
    ctx.rule("no-static", "native helpers called from parallel code keep no mutable static state")
    ctx.rule("locked", "every use of a scorer's accumulator happens while its own lock is held, and from the first contribution to reading the result under one acquisition")
    ctx.assume("the row updates of BPR's SGD kernel are documented as lock-free (Hogwild) and exempt, only for rows of the factor matrices chosen by a random draw")
    ctx.assume("the Cython compiler rejects code that touches Python objects without the interpreter lock; the build is part of the test run")
    ctx.assume("the two factor matrices given to a solver are different arrays")
    for f in native.kernels(proj):
        has_par = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("prange", "parallel") for n in ast.walk(f.node))
        if not has_par:
            continue
        ctx.saw("regions", f.qual)
        e, paths = native.run(ctx, f)
        for p in paths:
            region(ctx, f, e, p)
        carried(ctx, f)
    pairs = [f for f in native.kernels(proj) if any("TopK" in str(t) for t in f.ctypes.values()) and f.is_kernel and f.cls is None]
    for f in pairs:
        e, paths = native.run(ctx, f, loops=2)
        for p in paths:
            region(ctx, f, e, p)
    for name, g in list(proj.cpp.funcs.items()) + [(k.name + "." + m, h) for k in proj.cpp.classes.values() for m, h in k.methods.items()]:
        ctx.obligation("no-static", name)
        for v, t in getattr(g.node, "statics", ()):
            ctx.violation("no-static", "%s:%s" % (name, v), "static %s %s is shared by every thread calling %s" % (t, v, name), where(g))
    scorer(ctx)


# -- memory written

def split(t):
    """(base object, [index, ...]) of an address or element; indices outermost first, pointer offsets as ('+', term)"""
    idx = []
    for _ in range(40):
        if t.op == "addr":
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        elif t.op in ("upd", "inpl", "cond"):
            t = t.a[0]
        elif t.op == "sub":
            idx.append(t.a[1])
            t = t.a[0]
        elif t.op == "attr" and t.a[1] in ("results", "sums", "nonzeros", "data_ptr"):
            t = t.a[0]
        elif t.op == "bin" and t.a[0] in ("+", "-"):
            a, b = t.a[1], t.a[2]
            if pointer(a):
                idx.append(b)
                t = a
            elif pointer(b) and t.a[0] == "+":
                idx.append(a)
                t = b
            else:
                break
        else:
            break
    return t, idx


def pointer(t):
    for _ in range(40):
        if t.op in ("addr", "alloc"):
            return True
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].rsplit(".", 1)[-1] in ("malloc", "calloc", "realloc"):
            return True
        if t.op in ("cast",):
            t = t.a[-1]
        elif t.op in ("upd", "inpl"):
            t = t.a[0]
        elif t.op == "bin" and t.a[0] in ("+", "-"):
            return pointer(t.a[1]) or pointer(t.a[2])
        else:
            return False
    return False


def monomials(t, sign=1):
    """[(sign, [factors])] of a sum of products"""
    t = native.strip_casts(t)
    if t.op == "bin" and t.a[0] in ("+", "-"):
        return monomials(t.a[1], sign) + monomials(t.a[2], sign if t.a[0] == "+" else -sign)
    if t.op == "bin" and t.a[0] == "*":
        out = []
        for s1, f1 in monomials(t.a[1]):
            for s2, f2 in monomials(t.a[2]):
                out.append((sign * s1 * s2, f1 + f2))
        return out
    if t.op == "un" and t.a[0] == "-":
        return monomials(t.a[1], -sign)
    return [(sign, [t])]


def mentions(t, v):
    return any(x is v for x in walk(t))


def component(c, v):
    """True: distinct for distinct iterations, False: not, None: the iteration does not occur in it or it is not understood"""
    if c.op == "slice":
        lo = c.a[0]
        return component(lo, v)
    c = native.strip_casts(c)
    if c.op == "lv" and c is not v:
        # an inner loop over this iteration's own segment: range(ptr[v], ptr[v + 1])
        lo, hi = native.strip_casts(c.a[2]), native.strip_casts(c.a[3])
        if lo.op == "sub" and hi.op == "sub" and native.strip_casts(lo.a[0]) is native.strip_casts(hi.a[0]):
            if native.diff(hi.a[1], lo.a[1]) == {1: 1} and native.diff(lo.a[1], v) == {}:
                return True
            if native.diff(lo.a[1], v) == {} and native.diff(hi.a[1], v) not in ({1: 1}, {}):
                return False
        if mentions(c.a[2], v):
            r = component(lo, v)
            return None if r else r
    if not mentions(c, v):
        return None
    with_v = [(s, f) for s, f in monomials(c) if any(mentions(x, v) for x in f)]
    if all(sum(1 for x in f if x is v) == 1 and all(x is v or not mentions(x, v) for x in f) for s, f in with_v):
        rest = [x for s, f in monomials(c) if not any(x is v for x in f) for x in f]
        if any(x.op == "sub" for x in rest):
            return False if any(y.op == "lv" for x in rest if x.op == "sub" for y in walk(x)) else None
        return True
    inner = [x for s, f in with_v for x in f if mentions(x, v) and x is not v]
    if any(x.op == "bin" and x.a[0] in ("//", "%", "/", "&", ">>") or x.op == "sub" or x.op == "call" and x.a[0] in ("builtins.min", "builtins.max") and len(with_v) == 1 and not
           any(y is v for y in x.a[1]) and all(not mentions(y, v) or is_const(y) for y in x.a[1]) for x in inner):
        return False
    return None


def owned(idx, v):
    parts = []
    for i in idx:
        if i is None:
            continue
        parts += list(i.a[0]) if i.op == "tuple" else [i]
    seen = [component(c, v) for c in parts if not is_const(c)]
    if any(s is True for s in seen):
        return True
    if any(s is False for s in seen):
        return False
    if not any(mentions(c, v) for c in parts):
        return False
    return None


def coefficient(idx, v):
    """(coefficient factors of v, rest as linear form) of a flat index"""
    if len(idx) != 1 or idx[0] is None or idx[0].op in ("tuple", "slice"):
        return None
    ms = monomials(idx[0])
    c = {}
    for s, f in ms:
        if any(x is v for x in f):
            g = [x for x in f if x is not v]
            if len(g) > 1 or len(g) != len(f) - 1:
                return None
            if g and not is_const(g[0]):
                c[g[0]] = c.get(g[0], 0) + s
            else:
                c[1] = c.get(1, 0) + s * (cval(g[0]) if g else 1)
    c = {k: n for k, n in c.items() if n}
    if not c:
        return None
    rest = {}
    for s, f in ms:
        if any(x is v for x in f):
            continue
        if len(f) == 1:
            native.lin(f[0], rest, s)
        else:
            return None
    return c, {k: n for k, n in rest.items() if n}


def is_region(t):
    return t.op == "call" and str(t.a[0]).endswith("parallel.parallel") or str(t).startswith("cython.parallel.parallel")


def region(ctx, f, e, p):
    par = []                # open parallel regions and parallel loops
    lvs = []                # (loop site, loop variable or None)
    mine = set()            # memory allocated by this thread inside the region
    gil = 0
    written = {}            # base -> first write
    flatw = {}
    topk = None
    for ev in p.events:
        if ev.kind == "with":
            if is_region(ev.d[0]):
                par.append(ev)
            elif "__gil__" in str(ev.d[0])[:20]:
                gil += 1
        elif ev.kind == "endwith":
            if is_region(ev.d[0]):
                par and par.pop()
                mine = set()
                written, flatw = {}, {}
            elif "__gil__" in str(ev.d[0])[:20]:
                gil -= 1
        elif ev.kind == "loop":
            r = ev.d[1]
            lvs.append([ev.d[0], r if r.op == "range" and r.a[3] == "par" else None, 0, r])
        elif ev.kind == "iter":
            for l in lvs:
                if l[0] == ev.d[0]:
                    l[2] = ev.d[1]
                    if l[1] is not None:
                        flatw = {}
        elif ev.kind == "loopend":
            lvs and lvs.pop()
            if not any(l[1] is not None for l in lvs) and not par:
                written, flatw = {}, {}
        inside = bool(par) or any(l[1] is not None for l in lvs)
        if not inside:
            continue
        ctx.count("events")
        if ev.kind == "alloc":
            mine.add(split(ev.d[0])[0])
            if str(ev.d[0]).startswith("new:TopK"):
                topk = ev.d[0]
        loop = next((l for l in reversed(lvs) if l[1] is not None), None)
        for t, how, extra in targets(ctx, ev):
            base, idx = split(t)
            idx = ([extra] if extra is not None else []) + idx
            if base in mine:
                ctx.count("writes")
                ctx.obligation("owned", f.qual)
                continue
            if base.op == "alloc" and gil and not shared_alloc(e, f, base):
                continue
            if base.op == "addr" or how == "local":
                continue
            ctx.count("writes")
            ctx.obligation("owned", f.qual)
            name = label(base)
            if base.op in ("meth", "bin", "call") and gil:
                continue
            if loop is None:
                if how in ("free",):
                    continue
                ctx.violation("owned", "%s:%s" % (f.qual, name), "%s is written (%s) by every thread of the parallel region" % (name, how), ev.where, api.path_steps(p.events))
                continue
            v = loopvar(p, loop)
            if v is None:
                continue
            if f.mod.name == HOGWILD and any(x.op == "meth" and x.a[1] == "generate" or "generate" in str(x) for i in idx if i is not None for x in walk(i)) and base.op == "param":
                ctx.saw("exempt", "%s:%s" % (f.qual, name))
                continue
            o = owned([i for i in idx if i is not None], v)
            if o is None:
                ctx.saw("not_understood", "%s: %s[%s]" % (f.qual, name, idx))
                continue
            if o is False:
                ctx.violation("owned", "%s:%s" % (f.qual, name), "%s[%s] is written (%s) from a parallel loop, but the element does not belong to the iteration alone"
                              % (name, ", ".join(str(i)[:80] for i in idx if i is not None) or "", how), ev.where, api.path_steps(p.events))
                continue
            written.setdefault(base, ev)
            overlap(ctx, f, p, ev, base, name, [i for i in idx if i is not None], v, flatw, topk,
                    any("results" in str(l[3]) for l in lvs))
        if loop is not None and written and f.mod.name != HOGWILD:
            reads(ctx, f, p, ev, loop, written)


def overlap(ctx, f, p, ev, base, name, idx, v, flatw, topk, per_result):
    c = coefficient(idx, v)
    if c is None:
        return
    fac, rest = c
    num = fac[1] if set(fac) == {1} else None
    key = (base, tuple(sorted(fac.items(), key=str)))
    for rest0, ev0 in flatw.setdefault(key, []):
        d = native.minus(rest, rest0)
        if num and set(d) <= {1} and d.get(1, 0) and d[1] % num == 0:
            ctx.violation("owned", "%s:%s" % (f.qual, name), "%s is written at %s and, in the next step of the same iteration, %d further on: the next iteration writes there too"
                          % (name, idx[0], d[1]), ev.where, api.path_steps(p.events))
    flatw[key].append((rest, ev))
    if topk is not None and per_result and len(topk.a) > 1 and topk.a[1]:
        d = native.minus(native.linear(topk.a[1][0]), fac)
        if num is not None and not (set(d) <= {1}) or set(d) == {1} and d[1] > 0:
            ctx.violation("owned", "%s:%s" % (f.qual, name), "an iteration stores up to %s results but the next iteration's part of %s starts %s further on"
                          % (topk.a[1][0], name, " + ".join("%s*%s" % (n, k) if k != 1 else str(n) for k, n in fac.items())), ev.where, api.path_steps(p.events))


def shared_alloc(e, f, t):
    """the allocation is written outside every parallel section of the function"""
    node = next((n for i, n in e._sites.values() if i == t.a[3]), None) if len(t.a) > 3 else None
    if node is None or not any(x is node for x in ast.walk(f.node)):
        return False
    for n in ast.walk(f.node):
        inner = isinstance(n, ast.For) and is_call(n.iter, "prange") or isinstance(n, ast.With) and any(is_call(i.context_expr, "parallel") for i in n.items)
        if inner and any(x is node for x in ast.walk(n)):
            return False
    return True


def is_call(x, name):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name


def label(t):
    t0 = t
    if t.op == "param":
        return str(t.a[-1])
    s = str(t0)
    return s if len(s) < 60 else s[:60]


def loopvar(p, loop):
    sid, k = loop[0], loop[2]
    for ev in p.events:
        for x in flat(ev.d):
            for t in walk(x):
                if t.op == "lv" and t.a[0] == sid and t.a[1] == k:
                    return t
    return None


def targets(ctx, ev):
    """(written address, how, element index or None)"""
    if ev.kind == "mut":
        t, how = ev.d[0], ev.d[1]
        if t.op == "addr" and len(t.a) > 1 and isinstance(t.a[1], tuple):
            return                        # output argument that is a local scalar
        if t.op == "list" or str(how) in ("append", "extend"):
            return
        i = ev.d[2] if len(ev.d) > 2 else None
        yield t, str(how), i if hasattr(i, "op") else None
    elif ev.kind == "call" and isinstance(ev.d[0], str):
        if ev.d[0].startswith("method:"):
            recv = ev.d[1][0]
            b, _ = split(recv)
            if str(b).startswith("new:") and ev.d[0][7:] not in READS:
                yield recv, ev.d[0][7:], None
                for a in ev.d[1][1]:
                    if str(split(a)[0]).startswith("new:"):
                        yield a, ev.d[0][7:], None
        else:
            g = ctx.proj.cpp.funcs.get(ev.d[0].rsplit(".", 1)[-1])
            if g is not None:
                for n, a in zip(g.params, ev.d[1][0]):
                    t = g.argtypes.get(n, "")
                    if "*" in t and not t.strip().startswith("const"):
                        yield a, ev.d[0], None


def reads(ctx, f, p, ev, loop, written):
    v = loopvar(p, loop)
    if v is None:
        return
    for x in flat(ev.d):
        starts = {y.a[0] for t in walk(x) if t.op == "bin" and t.a[0] in ("+", "-") for y in t.a[1:3] if y.op == "addr"}
        for t in walk(x):
            if t.op != "sub" or t in starts:
                continue
            base, idx = split(t)
            if base not in written:
                continue
            ctx.obligation("read-own", f.qual)
            o = owned(idx, v)
            if o is True:
                c = idx[-1].a[0][0] if idx[-1].op == "tuple" else idx[-1]
                d = native.diff(c, v)
                if set(d) == {1}:
                    ctx.violation("read-own", "%s:%s" % (f.qual, label(base)), "reads %s, which another iteration writes" % str(t)[:120], ev.where, api.path_steps(p.events))
                continue
            if o is False:
                if not any(y.op == "lv" for i in idx for y in walk(i)) and all(is_const(c) for i in idx for c in (i.a[0] if i.op == "tuple" else [i])) and len(idx) == 1:
                    if idx[0].op == "tuple" and len(idx[0].a[0]) == 2:
                        pass
                    else:
                        continue
                if any(y.op == "addr" for y in [x]) and False:
                    continue
                ctx.violation("read-own", "%s:%s" % (f.qual, label(base)), "reads %s, which another iteration may be writing" % str(t)[:120], ev.where, api.path_steps(p.events))


# -- scalars

def carried(ctx, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "prange":
            ctx.obligation("private", f.qual)
            first = {}
            order = [x for s in n.body for x in in_order(s)]
            for x in order:
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    first.setdefault(x.target.id, "aug")
                elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                first.setdefault(y.id, "plain")
                elif isinstance(x, ast.For):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            first.setdefault(y.id, "plain")
            private = {k for k, v in first.items() if v == "plain"}
            bad = {}
            flow(n.body, {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}, private, bad)
            for k, node in bad.items():
                ctx.violation("private", "%s:%s" % (f.qual, k), "%s is read before it is assigned in the iteration, so it carries a value between iterations of the parallel loop" % k,
                              "%s:%d (%s)" % (f.file, getattr(node, "lineno", n.lineno), f.qual))


def in_order(s):
    yield s
    for _, v in ast.iter_fields(s):
        if isinstance(v, list):
            for x in v:
                if isinstance(x, ast.stmt):
                    yield from in_order(x)
                elif isinstance(x, ast.ExceptHandler):
                    for y in x.body:
                        yield from in_order(y)


def names_read(x):
    """names read by an expression; an address-of operand counts only as written"""
    out = []
    skip = set()
    for y in ast.walk(x):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("__addr__", "__address__", "address"):
            for a in y.args:
                if isinstance(a, ast.Name):
                    skip.add(id(a))
    for y in ast.walk(x):
        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and id(y) not in skip:
            out.append(y)
    return out


def flow(body, done, private, bad):
    """names definitely assigned after body, or None when it cannot fall through"""
    done = set(done)

    def read(x):
        if x is None:
            return
        for y in names_read(x):
            if y.id in private and y.id not in done:
                bad.setdefault(y.id, y)
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            read(s.value)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        if s.value is not None:
                            done.add(y.id)
                    elif isinstance(y, ast.Name):
                        read(y)
        elif isinstance(s, ast.AugAssign):
            read(s.value)
            if isinstance(s.target, ast.Name):
                if s.target.id in private and s.target.id not in done:
                    bad.setdefault(s.target.id, s)
            else:
                read(s.target)
        elif isinstance(s, ast.If):
            read(s.test)
            a = flow(s.body, done, private, bad)
            b = flow(s.orelse, done, private, bad)
            if a is None and b is None:
                return None
            done = a & b if a is not None and b is not None else (a if b is None else b)
        elif isinstance(s, ast.For):
            read(s.iter)
            flow(s.body, done | {y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)}, private, bad)
            flow(s.orelse, done, private, bad)
        elif isinstance(s, ast.While):
            read(s.test)
            flow(s.body, done, private, bad)
        elif isinstance(s, ast.With):
            for i in s.items:
                read(i.context_expr)
            r = flow(s.body, done, private, bad)
            if r is None:
                return None
            done = r
        elif isinstance(s, ast.Try):
            r = flow(s.body, done, private, bad)
            flow(s.finalbody, done, private, bad)
            done = r if r is not None and not s.handlers else done
        elif isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                read(c)
            return None
        else:
            for c in ast.iter_child_nodes(s):
                read(c)
    return done


# -- the shared scorer

def scorer(ctx):
    proj = ctx.proj
    for m in proj.modules.values():
        for k in m.classes.values():
            if not k.is_cclass or k.mod.name.startswith("implicit.gpu"):
                continue
            ptr = [n for n, t in k.fields.items() if "*" in str(t) or "SparseMatrixMultiplier" in str(t)]
            if not ptr:
                continue
            locks = lock_fields(ctx, k)
            for f in k.methods.values():
                if f.name in ("__cinit__", "__init__", "__dealloc__") or native.private_helper(proj, f):
                    continue
                e, paths = native.run(ctx, f, k)
                for p in paths:
                    uses(ctx, k, f, p, ptr, locks)


def lock_fields(ctx, k):
    out = {}
    for n in ("__cinit__", "__init__"):
        f = k.methods.get(n)
        if f is None:
            continue
        e, paths = native.run(ctx, f, k)
        for p in paths:
            for ev in p.events:
                if ev.kind == "set" and ev.d[2].op in ("call", "alloc", "new") and str(ev.d[2].a[0]) in LOCKS:
                    out[ev.d[1]] = True
    return out


def uses(ctx, k, f, p, ptr, locks):
    construct = "%s.%s" % (k.qual, f.name)
    held = []
    acq = 0
    sections = set()
    for ev in p.events:
        if ev.kind == "with":
            if ev.d[0].op == "attr" and ev.d[0].a[1] in locks:
                acq += 1
                held.append(acq)
            else:
                held.append(None)
        elif ev.kind == "endwith":
            held and held.pop()
        elif ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0] in ("method:acquire", "method:release"):
            r = ev.d[1][0]
            if r.op == "attr" and r.a[1] in locks:
                if ev.d[0] == "method:acquire":
                    acq += 1
                    held.append(acq)
                else:
                    for i in range(len(held) - 1, -1, -1):
                        if held[i]:
                            del held[i]
                            break
        use = None
        if ev.kind == "mut" and rooted(ev.d[0], ptr):
            use = str(ev.d[1]).lstrip(".")
        elif ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:") and ev.d[0][7:] not in READS:
            if rooted(ev.d[1][0], ptr):
                use = ev.d[0][7:]
        if use is None:
            continue
        ctx.count("scorer_uses")
        ctx.obligation("locked", construct)
        cur = [h for h in held if h]
        if not cur:
            ctx.violation("locked", construct + ":" + use, "the accumulator shared by all callers of this object is used (%s) without holding the object's lock" % use,
                          ev.where, api.path_steps(p.events))
            return
        sections.add(cur[0])
        if len(sections) > 1:
            ctx.violation("locked", construct + ":sections", "the lock is released between adding contributions and reading the result", ev.where, api.path_steps(p.events))
            return


def rooted(t, ptr):
    for _ in range(20):
        if t.op == "attr" and t.a[0].op == "self" and t.a[1] in ptr:
            return True
        if t.op in ("attr", "sub", "upd", "inpl", "addr"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        else:
            return False
    return False


__all__ = ["check", "MINIMUM", "M"]
