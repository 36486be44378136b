"""C17: training that failed is reported by an error: NaN factors on every return of fit, LAPACK failures before their result is stored."""
import ast

from .. import api
from .. import model as M
from .. import native
from ..terms import T, cval, is_const, kids, mk, walk
from .c04 import flat
from .c07 import where

MINIMUM = {"fits": 1}
FACTORS = ("user_factors", "item_factors")
LAPACK = ("posv", "gesv", "potrf", "getrf", "sysv", "gels", "ppsv", "posvx", "gesvx", "potri")
PROPAGATE = {"numpy.sum", "numpy.min", "numpy.max", "numpy.mean", "numpy.linalg.norm", "numpy.amax", "numpy.amin", "numpy.prod", "numpy.var", "numpy.std"}
PROPAGATE_METH = {"sum", "min", "max", "mean", "prod", "var", "std"}
SAME_METH = {"ravel", "flatten", "reshape", "copy", "astype", "to_numpy", "__array__"}
SAME_CALL = {"numpy.asarray", "numpy.array", "numpy.ravel", "numpy.ascontiguousarray", "numpy.asanyarray", "builtins.bool", "numpy.atleast_2d"}
SOLVE_CALLS = ("numpy.linalg.solve", "scipy.linalg.solve", "scipy.linalg.cho_factor", "scipy.linalg.cho_solve", "numpy.linalg.inv", "numpy.linalg.cholesky")


def check(ctx):
    proj = ctx.proj
    ctx.rule("nan-check", "every normal return of fit is preceded, after the last change of the factors, by a check of both factor matrices that raises when either contains a NaN")
    ctx.rule("info", "the result of a LAPACK solve is only stored on paths where its info output is known to be zero, and every path where it is not zero raises")
    ctx.rule("propagates", "an error raised for a failed solve is not dropped: not raised inside a C function that cannot propagate it, nor caught around the solve without raising again")
    ctx.assume("numpy.linalg.solve raises for singular systems; the conjugate gradient solver reports divergence only through NaN factors")
    for c in api.model_classes(proj):
        if api.is_gpu(c):
            continue
        f = proj.method(c, "fit")
        if f is None or f.is_abstract:
            continue
        e, paths = api.run(ctx, f, c, loops=1)
        me = api.selfterm(c)
        if not any(ev.kind == "set" and ev.d[0] is me and ev.d[1] == "user_factors" for p in paths for ev in p.events):
            continue
        name = "%s.fit" % c.qual
        ctx.saw("fits", name)
        for p in paths:
            if p.kind == "ret":
                returned(ctx, name, f, e, p, me)
        swallowed(ctx, name, e, paths)
    for c in api.model_classes(proj):
        if api.is_gpu(c):
            continue
        for n, f in sorted(api.all_methods(proj, c).items()):
            if n.startswith(("partial_fit", "recalculate")) and not f.is_abstract:
                e, paths = api.run(ctx, f, c, loops=1)
                swallowed(ctx, "%s.%s" % (c.qual, n), e, paths)
    for f in native.kernels(proj):
        if f.is_kernel:
            e, paths = native.run(ctx, f)
            lapack(ctx, f, e, paths)
            swallowed(ctx, f.qual, e, paths)
    for n in ("least_squares", "least_squares_cg", "user_factor", "item_factor"):
        for m in ("implicit.cpu.als", "implicit.cpu._als"):
            f = proj.find_func(m + "." + n)
            if f is not None:
                e, paths = api.run(ctx, f, None, loops=1, opaque=set())
                swallowed(ctx, f.qual, e, paths)


# -- NaN check at the end of fit

def clean(t, val, out, dirty):
    """terms the truth value of a condition proves free of NaN; dirty: conditions that look at NaN without proving it"""
    t = M.ident(t)
    if t.op == "truth":
        return clean(t.a[0], val, out, dirty)
    if t.op == "un" and t.a[0] in ("not", "~"):
        return clean(t.a[1], not val, out, dirty)
    if t.op in ("bin", "bool") and t.a[0] in ("|", "or") and not val or t.op in ("bin", "bool") and t.a[0] in ("&", "and") and val:
        for x in kids(t):
            clean(x, val, out, dirty)
        return
    if t.op == "cast":
        return clean(t.a[-1], val, out, dirty)
    if t.op == "call":
        n, args = t.a[0], t.a[1]
        s = n.rsplit(".", 1)[-1]
        if n in SAME_CALL and args:
            return clean(args[0], val, out, dirty)
        if n in ("numpy.logical_or", "numpy.bitwise_or") and not val or n in ("numpy.logical_and", "numpy.bitwise_and") and val:
            for x in args:
                clean(x, val, out, dirty)
            return
        if n in ("numpy.logical_not",):
            return clean(args[0], not val, out, dirty)
        if s in ("any", "sum", "count_nonzero", "max") and args and not val and n.startswith(("numpy.", "builtins.")):
            return clean(args[0], val, out, dirty)
        if s in ("all", "min") and args and val and n.startswith(("numpy.", "builtins.")):
            return clean(args[0], val, out, dirty)
        if s == "isnan" and not val and args or s == "isfinite" and val and args:
            out.add(whole(args[0]))
            return
        if s == "isinf":
            return
    if t.op == "meth":
        if t.a[1] in ("any", "sum", "max") and not val or t.a[1] in ("all", "min") and val:
            return clean(t.a[0], val, out, dirty)
        if t.a[1] in SAME_METH or t.a[1] == "item":
            return clean(t.a[0], val, out, dirty)
    if t.op == "cmp":
        o, a, b = t.a
        if o == "==" and a is b and val or o == "!=" and a is b and not val:
            out.add(whole(a))
            return
        if is_const(b) and cval(b) == 0 and (o in ("==", "<=") and val or o in ("!=", ">") and not val):
            return clean(a, False, out, dirty)
        if is_const(a) and cval(a) == 0 and (o in ("==", ">=") and val or o in ("!=", "<") and not val):
            return clean(b, False, out, dirty)
    for x in walk(t):
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0].rsplit(".", 1)[-1] in ("isnan", "isfinite"):
            dirty.append((t, val))
            break


def whole(t):
    while True:
        if t.op == "meth" and t.a[1] in SAME_METH | PROPAGATE_METH and not axis(t.a[3]):
            t = t.a[0]
        elif t.op == "call" and t.a[0] in SAME_CALL | PROPAGATE and t.a[1] and not axis(t.a[2]):
            t = t.a[1][0]
        elif t.op == "attr" and t.a[1] == "T":
            t = t.a[0]
        elif t.op == "sub" and full_slice(t.a[1]):
            t = t.a[0]
        else:
            return t


def axis(kws):
    return False


def full_slice(i):
    xs = i.a[0] if i.op == "tuple" else (i,)
    return all(x.op == "slice" and all(is_const(y) and cval(y) is None for y in x.a) for x in xs)


def returned(ctx, name, f, e, p, me):
    ctx.obligation("nan-check", name)
    proven, dirty = set(), []
    for k, v in p.st.facts.items():
        if v in (True, False):
            clean(k, v, proven, dirty)
    for ev in p.events:
        if ev.kind == "set" and ev.d[0] is me and ev.d[1] in FACTORS and any(x.op == "call" and x.a[0] == "numpy.nan_to_num" for x in walk(ev.d[2])) or \
                ev.kind == "call" and ev.d[0] == "numpy.nan_to_num" and any(x is M.ident(p.st.heap.get((me, a), mk("attr", me, a))) for a in FACTORS for y in flat(ev.d[1]) for x in walk(y)):
            ctx.violation("nan-check", name + ":hidden", "NaN values in the factors are replaced instead of being reported", ev.where, api.path_steps(p.events))
    for a in FACTORS:
        cur = p.st.heap.get((me, a), mk("attr", me, a))
        if cur in proven:
            continue
        if not used(p, me, a):
            continue
        old = [x for x in proven if M.ident(x) is M.ident(cur)]
        part = [x for x in proven if x is not cur and M.ident(x) is not M.ident(cur) and any(y is M.ident(cur) or y is cur for y in walk(x))]
        seen = [t for t, v in dirty if any(y is cur for y in walk(t))]
        if old:
            ctx.violation("nan-check", "%s:%s:early" % (name, a), "%s is checked for NaN before its last update" % a, where(f), api.path_steps(p.events))
        elif part:
            ctx.violation("nan-check", "%s:%s:part" % (name, a), "only %s is checked for NaN" % str(part[0])[:100], where(f), api.path_steps(p.events))
        elif seen and not definite(seen, dirty):
            ctx.saw("not_understood", "%s: %s" % (name, seen[0]))
        else:
            ctx.violation("nan-check", "%s:%s" % (name, a), "fit can return although %s may contain NaN: no check that raises covers it on this path" % a,
                          where(f), api.path_steps(p.events))


def definite(seen, dirty):
    """the condition is a NaN test that came out the wrong way (a NaN was found, or not everything is NaN)"""
    for t, v in dirty:
        if t not in seen:
            continue
        core = t
        while core.op == "truth":
            core = core.a[0]
        n = core.a[0].rsplit(".", 1)[-1] if core.op == "call" else core.a[1] if core.op == "meth" else core.a[0] if core.op == "bin" else None
        if n in ("any", "|", "or") and v is True or n in ("all", "&", "and") and v is False:
            return True
    return False


def used(p, me, a):
    return any(ev.kind == "set" and ev.d[0] is me and ev.d[1] in FACTORS or ev.kind in ("mut",) for ev in p.events)


# -- errors caught around a solve

def is_solve(ev):
    if ev.kind == "call" and isinstance(ev.d[0], str):
        q = ev.d[0]
        n = q.rsplit(".", 1)[-1]
        return "least_squares" in n or q in SOLVE_CALLS or n in ("user_factor", "item_factor") or n in ("bpr_update", "lmf_update")
    return ev.kind == "raise"


def swallowed(ctx, name, e, paths):
    cover = set()
    for p in paths:
        open_ = []
        for ev in p.events:
            if ev.kind == "try":
                open_.append(ev.d[0])
            elif ev.kind == "endtry" and ev.d[0] in open_:
                open_.remove(ev.d[0])
            elif is_solve(ev):
                cover.update(open_)
                if open_ or ev.kind == "call":
                    ctx.obligation("propagates", name)
            elif ev.kind == "except":
                pass
    for n, node in e._sites.values():
        if isinstance(node, ast.Try) and any(isinstance(x, ast.Call) and ast.unparse(x.func).rsplit(".", 1)[-1] in ("solve", "cho_factor", "cho_solve", "inv", "cholesky")
                                             for b in node.body for x in ast.walk(b)):
            cover.add(n)
    for p in paths:
        if p.kind != "ret":
            continue
        for i, ev in enumerate(p.events):
            if ev.kind != "except":
                continue
            v = ev.d[0]
            hard = isinstance(v, T) and v.op != "implicit"
            if not hard and v.a[0] not in cover:
                continue
            if interrupts_only(e, ev):
                continue
            end = next((j for j in range(i + 1, len(p.events)) if p.events[j].kind == "endexcept"), len(p.events))
            if any(is_solve(o) and o.kind == "call" for o in p.events[i + 1:end]):
                ctx.saw("not_understood", name + ": falls back to another solve after an error")
                continue
            if any(o.kind == "raise" for o in p.events[i + 1:]):
                continue
            if hard and not relevant(v):
                continue
            ctx.violation("propagates", name + ":caught", "an error raised while solving is caught at %s and the call returns normally" % ev.where, ev.where, api.path_steps(p.events))


def relevant(v):
    n = v.a[0] if v.op in ("call", "alloc", "new", "glob", "class") and isinstance(v.a[0], str) else ""
    return not n.rsplit(".", 1)[-1] in ("StopIteration", "KeyError", "AttributeError", "ImportError", "IndexError")


def interrupts_only(e, ev):
    names = ev.d[1] if len(ev.d) > 1 else ()
    return bool(names) and all(n in ("KeyboardInterrupt", "ImportError", "ModuleNotFoundError", "AttributeError", "KeyError") for n in names)


# -- LAPACK info

def lapack_name(q):
    n = q.rsplit(".", 1)[-1]
    return n[1:] if n[:1] in "sdcz" and n[1:] in LAPACK else None


def solved(p, call):
    """True: the path knows info == 0; False: it knows it is not; None: undecided"""
    res = None
    for k, v in p.st.facts.items():
        x, val = k, v
        while x.op == "truth" or x.op == "un" and x.a[0] == "not":
            if x.op == "un":
                val = not val
                x = x.a[1]
            else:
                x = x.a[0]
        x = native.strip_casts(x)
        if info_of(x, call):
            res = not val
        elif x.op == "cmp":
            o, a, b = x.a
            if info_of(a, call) and is_const(b) and cval(b) == 0:
                res = {"==": val, "!=": not val, ">": not val, "<=": val}.get(o, res)
            elif info_of(b, call) and is_const(a) and cval(a) == 0:
                res = {"==": val, "!=": not val, "<": not val, ">=": val}.get(o, res)
    return res


def info_of(x, call):
    x = M.ident(x)
    return x.op == "out" and x.a[0] is call


def lapack(ctx, f, e, paths):
    for p in paths:
        evs = p.events
        for i, ev in enumerate(evs):
            if ev.kind == "raise":
                fn = ctx.proj.find_func(ev.func) if isinstance(ev.func, str) else ev.func
                if fn is not None and getattr(fn, "noexcept", False):
                    ctx.violation("propagates", fn.qual, "raises inside a C function that cannot propagate exceptions, so the error is printed and dropped", ev.where, api.path_steps(evs))
            if ev.kind != "call" or not isinstance(ev.d[0], str):
                continue
            n = lapack_name(ev.d[0])
            if n is None or f.noexcept and f.cfunc:
                continue
            ctx.saw("solves", "%s: %s" % (f.qual, ev.d[0]))
            ctx.obligation("info", "%s: %s" % (f.qual, n))
            call = ev.d[2]
            s = solved(p, call)
            if s is not True and p.kind == "ret" and not f.cfunc:
                what = "returns normally when %s failed" % n if s is False else "never looks at whether %s succeeded" % n
                ctx.violation("info", f.qual + ":ignored", what, ev.where, api.path_steps(evs))
            for o in reversed(evs[:i]):
                if o.kind in ("loop", "iter") or o.kind == "call" and isinstance(o.d[0], str) and lapack_name(o.d[0]):
                    break
                if o.kind == "mut" and param_memory(o.d[0]) and "memcpy" in str(o.d[1]) and copied(o, ev):
                    ctx.violation("info", f.qual + ":before", "the right hand side is stored into %s before %s has solved it" % (str(o.d[0])[:60], n), o.where, api.path_steps(evs))
            loop = 0
            for o in evs[i + 1:]:
                if o.kind == "call" and isinstance(o.d[0], str) and lapack_name(o.d[0]):
                    break
                if o.kind == "loop":
                    loop += 1
                elif o.kind == "loopend":
                    loop -= 1
                    if loop < 0:
                        break
                elif o.kind == "mut":
                    t = o.d[0]
                    if param_memory(t) and o.d[3] is call:
                        ctx.violation("info", f.qual + ":inplace", "%s solves directly into %s, before it is known whether it succeeded" % (n, str(t)[:60]), o.where, api.path_steps(evs))
                    elif param_memory(t) and s is not True and not zeroes(o):
                        ctx.violation("info", f.qual + ":stored", "stores into %s after %s without knowing that it succeeded" % (str(t)[:60], n), o.where, api.path_steps(evs))


def copied(o, call):
    """the memory copied is a buffer handed to the solver"""
    t = o.d[3]
    if not (hasattr(t, "op") and t.op == "call" and len(t.a[1]) > 1):
        return False
    src = M.ident(native.strip_casts(t.a[1][1]))
    return any(M.ident(native.strip_casts(x)) is src for x in flat(call.d[1]))


def zeroes(o):
    return "memset" in str(o.d[1])


def param_memory(t):
    """writes memory of an array the caller gave"""
    t = native.strip_casts(M.ident(t))
    while t.op in ("addr", "sub", "bin", "cast", "deref"):
        ks = kids(t)
        if not ks:
            return False
        t = M.ident(ks[0])
    return t.op == "param"


__all__ = ["check", "MINIMUM", "T"]
