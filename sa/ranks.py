"""Provenance of returned ids and scores: which ranked source they come from and every position-changing operation since.

A chain is (source, component, ops): source is the term of the call that produced the ranking, component "ids" or "scores", ops the
operations applied since, innermost first:
  ("sel", index)        selection (mask, permutation, slice, row)
  ("row", index)        one row of a batch
  ("append", term)      values appended at the end
  ("remap", base)       ids only: positions translated through base
  ("arith", op, other, left)   scores only: elementwise arithmetic; left: the chain is the left operand
  ("rows", alloc, index)       stored as one row of an output array
"""
from . import model as M
from . import query as Q
from .terms import NONE, T, cval, is_const, mk, walk

DISTANCE = {"get_nns_by_vector", "knnQuery", "knnQueryBatch", "get_nns_by_item"}
SWAPPED = {"search"}                      # (scores, ids)
SOURCES = {"topk", "recommend", "similar_items", "similar_users", "get_nns_by_vector", "knnQuery", "knnQueryBatch", "search"}
ARR_SAME = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.copy", "numpy.atleast_1d", "numpy.float32",
            "numpy.float64", "numpy.int32", "numpy.int64", "builtins.list", "builtins.tuple"}
METH_SAME = {"astype", "copy", "tolist", "flatten", "ravel", "to_numpy"}


class Chain:
    __slots__ = ("source", "name", "comp", "ops", "order")

    def __init__(self, source, name, comp, order, ops=()):
        self.source, self.name, self.comp, self.order, self.ops = source, name, comp, order, tuple(ops)

    def add(self, *op):
        return Chain(self.source, self.name, self.comp, self.order, self.ops + (op,))

    def __repr__(self):
        return "%s.%s%s" % (self.name, self.comp, [(o[0],) + tuple(str(x)[:40] for x in o[1:]) for o in self.ops])


def source_name(t):
    if t.op == "meth":
        return t.a[1]
    if t.op == "call":
        return t.a[0].rsplit(".", 1)[-1]
    return None


def pair_source(t, i):
    """component i of a call that returns a pair of arrays"""
    n = source_name(t)
    if n not in SOURCES:
        return None
    if n in SWAPPED:
        comp = ("scores", "ids")[i]
        return Chain(t, n, comp, "desc")
    return Chain(t, n, ("ids", "scores")[i], "asc" if n in DISTANCE else "desc")


def chain(t, depth=0):
    """-> Chain, ("rows", alloc, [(index, chain)...]) or None"""
    if depth > 60:
        return None
    op = t.op
    if op == "sub":
        b, i = t.a[0], t.a[1]
        if is_const(i) and cval(i) in (0, 1) and not isinstance(cval(i), bool):
            s = pair_source(b, cval(i))
            if s is not None:
                return s
            if b.op == "elem" and source_name(b.a[0]) == "knnQueryBatch":
                return pair_source(b.a[0], cval(i)).add("each")
        c = chain(b, depth + 1)
        if isinstance(c, Chain):
            if i.op in ("lv", "elem") or (is_const(i) and isinstance(cval(i), int)):
                return c.add("row", i)
            return select(c, i)
        c = chain(i, depth + 1)
        if isinstance(c, Chain) and c.comp == "ids":
            return c.add("remap", b)
        return None
    if op == "attr" and t.a[1] in ("indices", "data"):
        b = M.ident(t.a[0])
        if b.op == "sub" and b.a[0].op == "attr" and b.a[0].a[1] == "similarity":
            return Chain(b, "similarity", "ids" if t.a[1] == "indices" else "scores", None)
        return None
    if op in ("call", "alloc"):
        d = t.a[0]
        if d in ARR_SAME and t.a[1]:
            return chain(t.a[1][0], depth + 1)
        if d in ("numpy.append", "numpy.concatenate", "numpy.hstack"):
            ps = t.a[1]
            if d != "numpy.append" and ps and ps[0].op in ("tuple", "list"):
                ps = ps[0].a[0]
                if isinstance(ps, int):
                    return None
            if len(ps) >= 2 and isinstance(ps[0], T) and isinstance(ps[1], T):
                c = chain(ps[0], depth + 1)
                if isinstance(c, Chain):
                    return c.add("append", ps[1])
                c = chain(ps[1], depth + 1)
                return c.add("prepend", ps[0]) if isinstance(c, Chain) else None
            return None
        if d in ("numpy.sort", "builtins.sorted") and t.a[1]:
            c = chain(t.a[1][0], depth + 1)
            return select(c, mk("call", "numpy.argsort", (t.a[1][0],), ())) if isinstance(c, Chain) else None
        if d in ("numpy.stack", "numpy.vstack", "numpy.array") and t.a[1] and t.a[1][0].op == "comp":
            return chain(t.a[1][0], depth + 1)
        if d in ("numpy.sqrt", "numpy.square", "numpy.negative", "numpy.abs"):
            c = chain(t.a[1][0], depth + 1) if t.a[1] else None
            if isinstance(c, Chain):
                return c.add("arith", {"numpy.negative": "neg"}.get(d, "mono"), NONE, True)
        if d in ("numpy.flip", "numpy.flipud") and t.a[1]:
            c = chain(t.a[1][0], depth + 1)
            return c.add("sel", mk("slice", NONE, NONE, mk("const", "int", -1))) if isinstance(c, Chain) else None
        if d == "numpy.take_along_axis" and len(t.a[1]) >= 2:
            c, i, cut = chain(t.a[1][0], depth + 1), M.ident(t.a[1][1]), []
            while i.op == "sub" and i.a[1].op == "tuple" and len(i.a[1].a[0]) == 2 and all(x.op == "slice" for x in i.a[1].a[0]) and i.a[1].a[0][0].a == (NONE,) * 3:
                cut.append(i.a[1].a[0][1])          # order[:, a:b] of a batch is order[a:b] of each row
                i = M.ident(i.a[0])
            if not isinstance(c, Chain) or not (i.op in ("call", "alloc") and i.a[0] == "numpy.argsort" or i.op == "meth" and i.a[1] == "argsort"):
                return None
            c = c.add("sel", i)
            for s in reversed(cut):
                c = c.add("sel", s)
            return c
        if d in ("numpy.take",) and len(t.a[1]) == 2:
            return chain(mk("sub", t.a[1][0], t.a[1][1]), depth + 1)
        if op == "alloc" and d in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.full_like", "numpy.empty_like"):
            return ("rows", t, ())
        return None
    if op == "comp":
        els = t.a[1]
        e0 = els[0] if isinstance(els, tuple) and els else els
        if isinstance(e0, T):
            return chain(e0, depth + 1)
        return None
    if op == "meth":
        if t.a[1] in METH_SAME:
            return chain(t.a[0], depth + 1)
        if t.a[1] == "take" and t.a[2]:
            return chain(mk("sub", t.a[0], t.a[2][0]), depth + 1)
        return None
    if op == "bin":
        l, r = chain(t.a[1], depth + 1), chain(t.a[2], depth + 1)
        l, r = (x if isinstance(x, Chain) else None for x in (l, r))
        if l is not None and r is None:
            return l.add("arith", t.a[0], t.a[2], True)
        if r is not None and l is None:
            return r.add("arith", t.a[0], t.a[1], False)
        return None
    if op == "un" and t.a[0] == "-":
        c = chain(t.a[1], depth + 1)
        return c.add("arith", "neg", NONE, True) if isinstance(c, Chain) else None
    if op == "inpl":
        how = t.a[1]
        c = chain(t.a[0], depth + 1)
        if isinstance(c, Chain):
            if how in ("/=", "*=", "-=", "+=", "**="):
                return c.add("arith", how[:-1], t.a[3], True)
            return c.add("inplace", how)
        return c
    if op == "upd":
        c = chain(t.a[0], depth + 1)
        if isinstance(c, tuple) and c[0] == "rows":
            return ("rows", c[1], c[2] + ((t.a[1], chain(t.a[2], depth + 1), t.a[2]),))
        if isinstance(c, Chain):
            return c.add("store", t.a[1], t.a[2])
        return None
    return None


def select(c, i):
    """x[j[slice]] is x[j][slice]"""
    i = M.ident(i)
    if i.op == "sub" and i.a[1].op == "slice":
        return select(c, i.a[0]).add("sel", i.a[1])
    if i.op in ("call", "alloc") and i.a[0] in ("numpy.flip", "numpy.flipud") and i.a[1]:
        return select(c, i.a[1][0]).add("sel", mk("slice", NONE, NONE, mk("const", "int", -1)))
    return c.add("sel", i)


def results(p):
    """[(ids chain, scores chain, kind)] for a returned pair; kind: 'pair' | 'row' with the output array | 'delegated'"""
    v = p.value
    if v.op != "tuple":
        n = source_name(v)
        return ("delegated", v) if n in SOURCES else None
    vs = v.a[0]
    if len(vs) != 2:
        return None
    a, b = chain(vs[0]), chain(vs[1])
    if isinstance(a, Chain) and isinstance(b, Chain):
        return ("pair", [(a, b, None)])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return ("rows", a, b)
    return None


def ranked(p):
    """every understood (ids chain, scores chain, ids alloc, scores alloc) returned by the path; None when not understood"""
    r = results(p)
    if r is None:
        return None
    if r[0] == "delegated":
        return []
    if r[0] == "pair":
        return [(a, b, None, None) for a, b, _ in r[1]]
    _, a, b = r
    if len(a[2]) != len(b[2]):
        return None
    out = []
    for (i, x, _), (j, y, _) in zip(a[2], b[2]):
        if not isinstance(x, Chain) or not isinstance(y, Chain):
            return None
        out.append((x.add("rows", a[1], i), y.add("rows", b[1], j), a[1], b[1]))
    return out


def is_mask(i):
    """boolean selection; -> None when unknown"""
    i = M.ident(i)
    if i.op in ("call", "alloc") and i.a[0] in ("numpy.in1d", "numpy.isin", "numpy.logical_not", "numpy.logical_and", "numpy.logical_or", "numpy.invert"):
        return True
    if i.op == "cmp":
        return True
    if i.op == "un" and i.a[0] in ("~", "not"):
        return is_mask(i.a[1])
    if i.op == "bin" and i.a[0] in ("&", "|"):
        return is_mask(i.a[1])
    return False


def membership(i):
    """(tested values, list, keeps members?) of a mask built from in1d / isin"""
    i = M.ident(i)
    neg = False
    while True:
        if i.op == "un" and i.a[0] in ("~", "not", "-"):
            neg = not neg
            i = M.ident(i.a[1])
        elif i.op == "call" and i.a[0] in ("numpy.logical_not", "numpy.invert") and i.a[1]:
            neg = not neg
            i = M.ident(i.a[1][0])
        elif i.op == "cmp" and i.a[0] == "==" and is_const(i.a[2]) and cval(i.a[2]) is False:
            neg = not neg
            i = M.ident(i.a[1])
        else:
            break
    if i.op in ("call", "alloc") and i.a[0] in ("numpy.in1d", "numpy.isin") and len(i.a[1]) >= 2:
        inv = M.kwget(i.a[2], "invert")
        if inv is not None:
            if not is_const(inv):
                return None
            if cval(inv):
                neg = not neg
        return i.a[1][0], i.a[1][1], not neg
    return None


def unchecked(i):
    """the list of a membership mask told that its inputs hold no duplicates, when nothing ensures that"""
    for x in walk(i):
        if x.op in ("call", "alloc") and x.a[0] in ("numpy.in1d", "numpy.isin", "numpy.setdiff1d", "numpy.intersect1d") and len(x.a[1]) >= 2:
            u = M.kwget(x.a[2], "assume_unique")
            if u is None and len(x.a[1]) > 2:
                u = x.a[1][2]
            if u is not None and is_const(u) and cval(u):
                for y in x.a[1][:2]:
                    z = M.ident(y)
                    while z.op in ("call", "alloc") and z.a[0] in ("numpy.array", "numpy.asarray") and z.a[1]:
                        z = M.ident(z.a[1][0])
                    if z.op == "param" or z.op in ("call", "alloc") and z.a[0] in ("numpy.append", "numpy.concatenate", "numpy.r_"):
                        return z
    return None


def selections(c):
    """the position-changing operations, without translation and arithmetic"""
    return [o for o in c.ops if o[0] in ("sel", "row", "append", "prepend", "rows", "each", "inplace", "store")]
