"""What a query returns: provenance of the returned ids and scores, and the calls a query hands its request to."""
from . import api
from . import model as M
from .terms import NONE, const, cval, is_const, kids, mk, walk

RANK = ("recommend", "similar_items", "similar_users")
SAME = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "builtins.list", "builtins.tuple", "numpy.copy",
        "builtins.sorted", "numpy.sort", "numpy.unique", "numpy.atleast_1d", "builtins.set", "builtins.frozenset", "implicit.gpu.IntVector",
        "builtins.int", "builtins.bool", "operator.index", "numpy.int32", "numpy.int64"}
SAME_METH = {"astype", "copy", "tolist", "tocsr", "tocoo", "tocsc", "sorted_indices", "ravel", "flatten"}
APPEND = {"numpy.append", "numpy.concatenate", "numpy.hstack", "numpy.union1d"}


def P(n):
    return mk("param", n)


def params_of(t):
    return {x.a[0] for x in walk(t) if x.op == "param"}


def unwrap(t):
    """the caller's value behind conversions that keep its contents"""
    while True:
        t = M.ident(t)
        if t.op in ("call", "alloc") and t.a[0] in SAME and t.a[1]:
            t = t.a[1][0]
        elif t.op == "meth" and t.a[1] in SAME_METH:
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        else:
            return t


def parts(t):
    """components of a concatenation"""
    t = unwrap(t)
    if t.op in ("call", "alloc") and t.a[0] in APPEND and t.a[1]:
        out = []
        args = t.a[1]
        if len(args) == 1 and args[0].op in ("tuple", "list"):
            args = args[0].a[0]
        for x in args:
            if isinstance(x, type(t)):
                out += parts(x)
        return out
    if t.op == "sub" and t.a[0].op in ("glob",) and t.a[0].a[0] in ("numpy.r_",):
        x = t.a[1]
        return [q for y in (x.a[0] if x.op == "tuple" else (x,)) for q in parts(y)]
    if t.op == "bin" and t.a[0] in ("|",):
        return parts(t.a[1]) + parts(t.a[2])
    if t.op == "meth" and t.a[1] in ("union", "union1d"):
        return parts(t.a[0]) + [q for y in t.a[2] for q in parts(y)]
    return [t]


def ranking_methods(proj, c):
    return [f for f in api.query_methods(proj, c) if f.name in RANK]


def signature(proj, name):
    """parameter names (without self) of a query method as declared by the common interface"""
    b = proj.cls(api.BASE)
    f = proj.method(b, name)
    if f is None:
        return None
    return [a for a in f.params if a not in ("self", "cls")]


def defaults(proj, name):
    b = proj.cls(api.BASE)
    f = proj.method(b, name)
    return f


def is_model(proj, recv):
    """a model given by the caller: a parameter, or an attribute holding a constructor argument of the same name"""
    r = M.ident(recv)
    if r.op == "param":
        return True
    if r.op == "self":
        return True
    if r.op == "attr" and r.a[0].op == "self":
        c = proj.find_class(r.a[0].a[0])
        f = proj.method(c, "__init__") if c else None
        return f is not None and r.a[1] in f.params
    return False


def bound_of(proj, e, ev):
    """(name, {param: term}, receiver) for a call event that hands a request to a query method"""
    q = ev[0]
    if not isinstance(q, str):
        return None
    if q.startswith("method:"):
        n = q[7:]
        recv, args, kws = ev[1]
        sig = signature(proj, n) if n in RANK or n == "fit" else None
        if sig is None or not is_model(proj, recv):
            return None
        b = {}
        for a, v in zip(sig, args):
            b[a] = v
        for k, v in kws:
            b[k] = v
        return n, b, recv
    n = q.rsplit(".", 1)[-1]
    d = dict(ev[1]) if ev[1] and isinstance(ev[1][0], tuple) and len(ev[1][0]) == 2 and isinstance(ev[1][0][0], str) else None
    if d is None:
        return None
    return n, d, d.get("self")
