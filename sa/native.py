"""Native functions (Cython kernels and the C++ helpers) analysed with their loops followed once."""
from . import api
from .project import Func
from .terms import walk

MOD_KNN = "implicit._nearest_neighbours"


def kernels(proj):
    """every function that runs native loops, whatever its name: nogil / prange blocks, or typed buffers"""
    out = []
    for f in proj.all_funcs():
        if f.mod.relpath.endswith(".pyx") and not f.mod.name.startswith("implicit.gpu"):
            out.append(f)
    return out


def run(ctx, f, cls=None, **kw):
    kw.setdefault("inline_kernels", True)
    kw.setdefault("loops", 1)
    kw.setdefault("zero_iter", False)
    return api.run(ctx, f, cls or f.cls, **kw)


def cpp(ctx, name, method=None):
    m = ctx.proj.cpp
    if method is None:
        return m.funcs.get(name)
    c = m.classes.get(name)
    return c.methods.get(method) if c else None


def scorer_class(proj):
    for m in proj.modules.values():
        for k in m.classes.values():
            if k.is_cclass and any("SparseMatrixMultiplier" in str(t) for t in k.fields.values()):
                return k
    return None


def topk_func(proj):
    return proj.find_func("implicit.cpu.topk.topk")


def lin(t, out=None, sign=1):
    """linear form {term or 1: coefficient} over +, -, casts and constants"""
    from .terms import cval, is_const
    out = {} if out is None else out
    if t.op == "cast":
        return lin(t.a[-1], out, sign)
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        out[1] = out.get(1, 0) + sign * cval(t)
    elif t.op == "bin" and t.a[0] in ("+", "-"):
        lin(t.a[1], out, sign)
        lin(t.a[2], out, sign if t.a[0] == "+" else -sign)
    elif t.op == "bin" and t.a[0] == "*" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
        lin(t.a[2], out, sign * cval(t.a[1]))
    elif t.op == "bin" and t.a[0] == "*" and is_const(t.a[2]) and isinstance(cval(t.a[2]), int):
        lin(t.a[1], out, sign * cval(t.a[2]))
    elif t.op == "un" and t.a[0] == "-":
        lin(t.a[1], out, -sign)
    else:
        k = strip_casts(t)
        out[k] = out.get(k, 0) + sign
    return out


def strip_casts(t):
    from .terms import rewrite
    return rewrite(t, lambda x: x.a[-1] if x.op == "cast" and len(x.a) == 2 and hasattr(x.a[-1], "op") else x)


def linear(t):
    d = lin(t)
    return {k: v for k, v in d.items() if v != 0}


def diff(a, b):
    d = lin(a)
    lin(b, d, -1)
    return {k: v for k, v in d.items() if v != 0}


__all__ = ["kernels", "run", "cpp", "scorer_class", "topk_func", "linear", "diff", "Func", "walk"]


def single_lv(t):
    """the loop variable a linear index runs over (coefficient one), or None"""
    d = linear(t)
    vs = [k for k in d if k != 1 and k.op == "lv"]
    if len(vs) == 1 and d[vs[0]] == 1 and not any(x.op == "lv" for k in d if k != 1 and k is not vs[0] for x in walk(k)):
        return vs[0]
    return None


def minus(a, b):
    """linear form a - b of linear forms"""
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v != 0}


def plus(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v
    return {k: v for k, v in d.items() if v != 0}


def extent(t):
    """(first, one past last) of an index that runs over a step-1 range, as linear forms; None when not of that kind"""
    from .terms import cval, is_const
    v = single_lv(t)
    if v is None or not (is_const(v.a[4]) and cval(v.a[4]) == 1):
        return None
    rest = minus(linear(t), {v: 1})
    return plus(linear(v.a[2]), rest), plus(linear(v.a[3]), rest)


def private_helper(proj, f):
    """a cdef / C++ function other functions of its module call: it is analysed where it is called, not on its own"""
    import ast
    cpp = f.qual.startswith("implicit.native.")
    if not (cpp or getattr(f, "cfunc", False)) or f.name.startswith("__"):
        return False
    for g in (list(f.mod.funcs.values()) + [m for k in f.mod.classes.values() for m in k.methods.values()]):
        if g is f or g.qual == f.qual:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                if f.cls is None and isinstance(n.func, ast.Name) and n.func.id == f.name:
                    return True
                if f.cls is not None and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                    return True
    return False
