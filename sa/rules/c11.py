"""C11: native memory and locks are released on every exit."""
import ast

from .. import api
from .. import native
from ..terms import walk
from .c04 import flat
from .c07 import where
from .c10 import is_region, lock_fields, split

MINIMUM = {"allocations": 1}

ALLOC = {"malloc", "calloc", "realloc", "PyMem_Malloc", "PyMem_RawMalloc"}
FREE = {"free", "PyMem_Free", "PyMem_RawFree"}
QUIET = {"sizeof", "__sizeof__", "__addr__", "__cast__", "__deref__", "dereference", "memcpy", "memset", "memmove", "malloc", "calloc", "realloc", "free", "range", "prange",
         "parallel", "__null__", "__nogil__", "__gil__", "threadid", "min", "max", "abs", "sqrt", "exp", "log", "fabs", "get_thread_num", "omp_get_thread_num", "locals"}


def check(ctx):
    proj = ctx.proj
    ctx.rule("freed-once", "on every path, normal or through a raised error, each native allocation made on it is freed exactly once, by the thread and in the loop iteration that made it")
    ctx.rule("not-after", "no freed memory is read, written, passed on or returned afterwards")
    ctx.rule("guarded", "no statement that can raise stands between an allocation and the try/finally (or free) that releases it")
    ctx.rule("owner", "a native object an extension type allocates for itself is created once per object and deleted exactly once, in __dealloc__")
    ctx.rule("lock", "an acquired lock is released on every exit: by a with block, or by a finally with nothing that can raise in between")
    ctx.assume("Cython calls __dealloc__ exactly once per object, also after a failing __cinit__; allocation failure itself (NULL) is outside this property")
    for f in native.kernels(proj):
        if has_alloc(f.node) or has_free(f.node) or locks_by_hand(f.node):
            for zero in (False, True):
                e, paths = native.run(ctx, f, zero_iter=zero)
                for p in paths:
                    lifetime(ctx, f, e, p)
            guarded(ctx, f)
    for m in proj.modules.values():
        for k in m.classes.values():
            if k.is_cclass:
                owner(ctx, k)
    for f in proj.all_funcs():
        by_hand(ctx, f)


def callee(x):
    if not isinstance(x, ast.Call):
        return None
    if isinstance(x.func, ast.Name):
        return x.func.id
    if isinstance(x.func, ast.Attribute):
        return "__new__" if isinstance(x.func.value, ast.Name) and x.func.value.id == "__new__" else x.func.attr
    return None


def is_alloc(x):
    return callee(x) == "__new__" or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ALLOC


def has_alloc(n):
    return any(is_alloc(x) for x in ast.walk(n))


def has_free(n):
    return any(isinstance(x, ast.Delete) or callee(x) in FREE for x in ast.walk(n))


def locks_by_hand(n):
    return any(callee(x) == "acquire" for x in ast.walk(n))


# -- along paths

def lifetime(ctx, f, e, p):
    live = {}           # memory -> (event, context)
    dead = {}
    tries = {}
    stack = []          # enclosing parallel regions and loops
    own = f.cls is not None and f.name in ("__cinit__", "__init__", "__dealloc__")
    for ev in p.events:
        if ev.kind == "with" and is_region(ev.d[0]):
            stack.append("region")
        elif ev.kind == "endwith" and is_region(ev.d[0]):
            if "region" in stack:
                stack = stack[:len(stack) - 1 - stack[::-1].index("region")]
        elif ev.kind == "try":
            tries[ev.d[0]] = list(stack)
        elif ev.kind in ("finally", "except") and ev.d and ev.d[0] in tries:
            stack = list(tries[ev.d[0]])
        elif ev.kind == "loop":
            stack.append(ev.d[0])
        elif ev.kind == "loopend":
            if ev.d[0] in stack:
                stack = stack[:stack.index(ev.d[0])]
        elif ev.kind == "alloc":
            b = split(ev.d[0])[0]
            ctx.saw("allocations", "%s: %s" % (f.qual, str(b)[:80]))
            ctx.obligation("freed-once", "%s: %s" % (f.qual, str(b)[:80]))
            live[b] = (ev, tuple(x for x in stack))
            continue
        elif ev.kind == "free":
            b = split(ev.d[0])[0]
            if b in dead:
                ctx.violation("freed-once", "%s:double:%s" % (f.qual, name(b)), "%s is freed twice on this path" % name(b), ev.where, api.path_steps(p.events))
                continue
            if b in live:
                a, cx = live.pop(b)
                if inner(cx, stack):
                    ctx.violation("freed-once", "%s:scope:%s" % (f.qual, name(b)), "%s is allocated at %s inside a loop or parallel region and freed only outside it"
                                  % (name(b), a.where), ev.where, api.path_steps(p.events))
                elif inner(stack, cx):
                    ctx.violation("freed-once", "%s:scope:%s" % (f.qual, name(b)), "%s is allocated once at %s but freed inside a loop or parallel region" % (name(b), a.where),
                                  ev.where, api.path_steps(p.events))
                dead[b] = ev
            elif b.op == "attr" or b.op == "param":
                dead[b] = ev
            continue
        if ev.kind == "set":
            b = split(ev.d[2])[0]
            if b in live and ev.d[0].op in ("self", "attr"):
                live.pop(b)         # handed to an object; its owner frees it (rule owner)
            dead = {k: v for k, v in dead.items() if not (k.op == "attr" and k.a[1] == ev.d[1])}
        if dead and ev.kind in ("mut", "call", "callv", "set"):
            ctx.obligation("not-after", f.qual)
            for x in flat(ev.d):
                for t in walk(x):
                    if t in dead and (t.op == "alloc" or ev.kind != "set"):
                        ctx.violation("not-after", "%s:%s" % (f.qual, name(t)), "%s is used (%s) after it was freed at %s" % (name(t), ev.kind, dead[t].where), ev.where,
                                      api.path_steps(p.events))
    if p.kind == "ret" and p.value is not None:
        for t in walk(p.value):
            if t in dead and t.op == "alloc" and direct(p.value, t):
                ctx.violation("not-after", "%s:%s" % (f.qual, name(t)), "returns %s after it was freed" % name(t), dead[t].where, api.path_steps(p.events))
            live.pop(t, None)
    if own:
        return
    for b, (ev, _) in live.items():
        ctx.violation("freed-once", "%s:leak:%s" % (f.qual, name(b)), "%s is never freed on a path that %s" % (name(b), "raises" if p.kind == "exc" else "returns normally"),
                      ev.where, api.path_steps(p.events))


def direct(v, t):
    """the returned value is, or contains, the memory itself (not something computed from it earlier)"""
    if v.op == "tuple":
        return any(direct(x, t) for x in v.a[0])
    return split(v)[0] is t and v.op in ("addr", "cast", "alloc", "attr")


def inner(a, b):
    """context a is strictly inside context b"""
    b = tuple(b)
    return len(a) > len(b) and tuple(a[:len(b)]) == b


def name(t):
    s = str(t)
    return s if len(s) < 70 else s[:70]


# -- along statements: nothing may raise before the release is set up

def releases(s, v):
    """the statement list frees v"""
    for x in ast.walk(s):
        if isinstance(x, ast.Delete) and any(isinstance(t, ast.Name) and t.id == v or isinstance(t, ast.Attribute) and ast.unparse(t) == v for t in x.targets):
            return True
        if isinstance(x, ast.Call) and any(ast.unparse(a) == v for a in x.args) and (callee(x) in FREE or callee(x) not in QUIET):
            return callee(x) in FREE or "free" in (callee(x) or "") or "releas" in (callee(x) or "") or "delete" in (callee(x) or "")
    return False


def frees(s, v):
    return releases(s, v)


def may_raise(f, s, nogil):
    """a node inside the statement that can raise a Python exception, or None"""
    for x, ng in walk_gil(s, nogil):
        if isinstance(x, ast.Raise):
            return x
        if ng:
            continue
        if isinstance(x, ast.Call):
            c = callee(x)
            if c in QUIET or c == "__new__" or c in ALLOC:
                continue
            if isinstance(x.func, ast.Attribute) and native_object(f, x.func.value):
                continue
            g = ctx_func(f, c)
            if g is not None and g.cfunc:
                continue
            return x
    return None


def ctx_func(f, c):
    return f.mod.funcs.get(c) if hasattr(f.mod, "funcs") and c else None


def native_object(f, x):
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        x = x.value
    return isinstance(x, ast.Name) and ("*" in str(f.ctypes.get(x.id, "")) or "vector" in str(f.ctypes.get(x.id, "")))


def walk_gil(s, nogil):
    yield s, nogil
    if isinstance(s, ast.With):
        for i in s.items:
            c = callee(i.context_expr)
            if c == "__nogil__":
                nogil = True
            elif c == "__gil__":
                nogil = False
            else:
                yield from walk_gil(i.context_expr, nogil)
        for x in s.body:
            yield from walk_gil(x, nogil)
        return
    for x in ast.iter_child_nodes(s):
        yield from walk_gil(x, nogil)


def blocks(body, nogil, outer):
    """(statement list, nogil, enclosing try statements)"""
    yield body, nogil, outer
    for s in body:
        ng, out = nogil, outer
        if isinstance(s, ast.With):
            for i in s.items:
                ng = True if callee(i.context_expr) == "__nogil__" else False if callee(i.context_expr) == "__gil__" else ng
            yield from blocks(s.body, ng, out)
        elif isinstance(s, ast.Try):
            yield from blocks(s.body, ng, out + [s])
            for h in s.handlers:
                yield from blocks(h.body, ng, out + [s])
            yield from blocks(s.orelse, ng, out + [s])
            yield from blocks(s.finalbody, ng, out)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For) and callee(s.iter) == "prange" and any(k.arg == "nogil" for k in s.iter.keywords):
                ng = True
            yield from blocks(s.body, ng, out)
            yield from blocks(s.orelse, ng, out)
        elif isinstance(s, ast.If):
            yield from blocks(s.body, ng, out)
            yield from blocks(s.orelse, ng, out)


def guarded(ctx, f):
    for body, nogil, outer in blocks(f.node.body, False, []):
        for i, s in enumerate(body):
            v = allocated(s)
            if v is None or v.startswith("self."):
                continue
            construct = "%s:%s" % (f.qual, v)
            ctx.obligation("guarded", construct)
            if any(any(frees(x, v) for x in t.finalbody) for t in outer):
                continue
            for t in body[i + 1:]:
                if isinstance(t, ast.Try) and any(frees(x, v) for x in t.finalbody):
                    break
                if frees(t, v) and not isinstance(t, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    break
                if isinstance(t, ast.Return) and t.value is not None and v in ast.unparse(t.value):
                    break
                r = may_raise(f, t, nogil)
                if r is not None:
                    ctx.violation("guarded", construct, "%s can raise between the allocation of %s and the point where its release is guaranteed" % (ast.unparse(r)[:80], v),
                                  "%s:%d (%s)" % (f.file, r.lineno, f.qual))
                    break


def allocated(s):
    """name of the variable a statement allocates memory for"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t, val = s.targets[0], s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        t, val = s.target, s.value
    else:
        return None
    while callee(val) == "__cast__":
        val = val.args[-1]
    return ast.unparse(t) if is_alloc(val) else None


# -- extension types

def owner(ctx, k):
    made = {}
    for f in k.methods.values():
        for n in ast.walk(f.node):
            v = allocated(n) if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
            if v and v.startswith("self."):
                made.setdefault(v, []).append((f, n))
    if not made:
        return
    d = k.methods.get("__dealloc__")
    for v, sites in made.items():
        construct = "%s:%s" % (k.qual, v)
        ctx.saw("owners", construct)
        ctx.obligation("owner", construct)
        if d is None:
            ctx.violation("owner", construct, "%s is allocated but the type has no __dealloc__ to free it" % v, where(sites[0][0]))
            continue
        names = {v} | {ast.unparse(t) for s in ast.walk(d.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and ast.unparse(s.value) == v
                       for t in (s.targets if isinstance(s, ast.Assign) else [s.target])}
        n = sum(1 for s in d.node.body for x in ast.walk(s) if gone(x, names))
        calls = any(isinstance(x, ast.Call) and callee(x) not in FREE and callee(x) not in QUIET for x in ast.walk(d.node))
        if n == 0 and not calls:
            ctx.violation("owner", construct, "%s is not freed in __dealloc__" % v, where(d))
        elif n == 1 and any(isinstance(s, ast.If) and any(gone(x, names) for y in s.body + s.orelse for x in ast.walk(y))
                            and not any(m.replace("self.", "") in ast.unparse(s.test) for m in names) for s in ast.walk(d.node)):
            ctx.violation("owner", construct, "%s is freed in __dealloc__ only under an unrelated condition" % v, where(d))
        elif n > 1 and not any(isinstance(x, ast.If) for x in ast.walk(d.node)):
            ctx.violation("owner", construct, "%s is freed %d times in __dealloc__" % (v, n), where(d))
        for f, node in sites:
            again = [n for g, n in sites if g is f and n is not node and n.lineno < node.lineno]
            if f.name == "__cinit__" and again and node in f.node.body and any(n in f.node.body for n in again) and not earlier_release(f, node, v):
                ctx.violation("owner", construct, "%s is allocated again in %s without freeing the first one" % (v, f.name), "%s:%d (%s)" % (f.file, node.lineno, f.qual))
            if f.name != "__cinit__":
                before = earlier_release(f, node, v)
                if not before:
                    ctx.violation("owner", construct, "%s is allocated again in %s, which can run more than once, without freeing the previous one" % (v, f.name),
                                  "%s:%d (%s)" % (f.file, node.lineno, f.qual))
    for v in made:
        for f in k.methods.values():
            if f.name == "__dealloc__":
                continue
            for n in ast.walk(f.node):
                if gone(n, {v}) and not later_assign(f, n, v):
                    ctx.violation("owner", "%s:%s:%s" % (k.qual, v, f.name), "%s frees %s, which __dealloc__ frees again" % (f.name, v), "%s:%d (%s)" % (f.file, n.lineno, f.qual))


def gone(x, names):
    return isinstance(x, ast.Delete) and any(ast.unparse(t) in names for t in x.targets) or callee(x) in FREE and x.args and ast.unparse(x.args[0]) in names


def earlier_release(f, node, v):
    return any((isinstance(n, ast.Delete) and any(ast.unparse(t) == v for t in n.targets) or callee(n) in FREE and n.args and ast.unparse(n.args[0]) == v
                or isinstance(n, ast.If) and v in ast.unparse(n.test)) and n.lineno <= node.lineno for n in ast.walk(f.node) if hasattr(n, "lineno"))


def later_assign(f, n, v):
    return any(isinstance(x, (ast.Assign, ast.AnnAssign)) and any(ast.unparse(t) == v for t in (x.targets if isinstance(x, ast.Assign) else [x.target])) and x.lineno >= n.lineno
               for x in ast.walk(f.node))


# -- locks taken by hand

def by_hand(ctx, f):
    for body, nogil, outer in blocks(f.node.body, False, []):
        for i, s in enumerate(body):
            for it in s.items if isinstance(s, ast.With) else ():
                if "lock" in ast.unparse(it.context_expr).lower():
                    ctx.obligation("lock", f.qual)
            x = s.value if isinstance(s, ast.Expr) else None
            if callee(x) != "acquire":
                continue
            r = ast.unparse(x.func.value)
            construct = "%s:%s" % (f.qual, r)
            ctx.obligation("lock", construct)
            if any(any(release(y, r) for y in t.finalbody) for t in outer):
                continue
            ok = False
            for t in body[i + 1:]:
                if isinstance(t, ast.Try) and any(release(y, r) for y in t.finalbody):
                    ok = True
                    break
                if isinstance(t, ast.Expr) and release(t, r):
                    ok = True
                    break
                bad = may_raise(f, t, nogil)
                if bad is not None or any(isinstance(y, ast.Return) for y in ast.walk(t)):
                    break
            if not ok:
                ctx.violation("lock", construct, "%s is acquired but not released when a statement in between raises or returns" % r, "%s:%d (%s)" % (f.file, s.lineno, f.qual))


def release(s, r):
    return any(callee(x) == "release" and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == r for x in ast.walk(s))


__all__ = ["check", "MINIMUM", "lock_fields"]
