"""C08: results never exceed the requested count or invent ids, and enough candidates are fetched before filtering."""
from .. import api
from .. import model as M
from .. import native
from .. import query as Q
from .. import ranks as R
from ..terms import NONE, T, cval, is_const, mk, walk
from .c07 import where

MINIMUM = {"queries": 8, "understood": 5}
N = mk("param", "N")
TWO_D = {"topk", "search", "knnQueryBatch"}


def check(ctx):
    proj = ctx.proj
    ctx.rule("bounded", "every returned ranking is cut to at most N: by the count its source is asked for, by a later [:N], or by an output row of length N, "
             "and nothing is appended after that")
    ctx.rule("enough", "when results are removed after the search, the search asked for at least N plus the number of excluded ids (or for everything)")
    ctx.rule("shape", "a single id gives one row, a batch gives one row per id, in every path")
    ctx.rule("padding", "ids appended to or left in a short row are the sentinel -1 or ids the caller listed, never an ordinary id")
    ctx.rule("delegated-count", "a request handed to another query asks for N results")
    ctx.rule("native-count", "native code returns at most as many entries as there are candidates, sized by what it found")
    for c in api.model_classes(proj):
        for f in Q.ranking_methods(proj, c):
            construct = "%s.%s" % (c.qual, f.name)
            ctx.saw("queries", construct)
            e, paths = api.run(ctx, f, c)
            for p in paths:
                if p.kind != "ret":
                    continue
                delegated(ctx, construct, f, e, p)
                r = R.ranked(p)
                if r is None:
                    ctx.saw("not_understood", "%s: %s" % (construct, str(p.value)[:120]))
                    continue
                for a, b, x, y in r:
                    ctx.count("understood")
                    bounded(ctx, construct, f, p, a)
                    enough(ctx, construct, f, p, a)
                    shape(ctx, construct, f, p, a, x)
                    padding(ctx, construct, f, p, a, x)
        f = proj.method(c, "explain")
        if f is not None:
            explained(ctx, c, f)
    native_counts(ctx)


def explained(ctx, c, f):
    """nothing is added to the listed contributions when none are asked for: the guard is the count, not one more"""
    e, paths = api.run(ctx, f, c)
    for p in paths:
        first = next((ev for ev in p.events if ev.kind == "mut" and isinstance(ev[1], str) and ev[1].startswith("heapq.heappush:")), None)
        if first is None:
            continue
        ctx.obligation("bounded", "%s.explain" % c.qual)
        about = [(t, v) for t, v in p.st.facts.items() if t.op == "cmp" and N in (t.a[1], t.a[2])]
        if about and all(holds_at_zero(t) is v for t, v in about):
            ctx.violation("bounded", "%s.explain" % c.qual, "a contribution is kept although the limit on their number is 0: one more than N is listed", first.where,
                          api.path_steps(p.events))


def holds_at_zero(t):
    a, b = (0 if x is N else cval(x) if is_const(x) else None for x in (t.a[1], t.a[2]))
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return None
    return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b}.get(t.a[0])


# ---------------------------------------------------------------- counts
def count_of(s, name):
    """number of results a source was asked for: term, "all" or None"""
    if name == "similarity":
        return "all"
    if s.op == "meth":
        args, kws = s.a[2], s.a[3]
    elif s.op == "call":
        args, kws = s.a[1], s.a[2]
    else:
        return None
    for k in ("k", "K", "N", "n"):
        v = M.kwget(kws, k)
        if v is not None:
            return v
    pos = {"topk": 2, "search": 1, "get_nns_by_vector": 1, "knnQuery": 1, "knnQueryBatch": 1, "recommend": 3 if scorer_call(s) else 2,
           "similar_items": 1, "similar_users": 1}.get(name)
    if pos is not None and len(args) > pos:
        return args[pos]
    if name in Q.RANK and not scorer_call(s):
        return "default"
    return None


def scorer_call(s):
    recv = s.a[0] if s.op == "meth" else None
    return recv is not None and recv.op == "attr" and "scorer" in recv.a[1]


def strip(t):
    while True:
        t = M.ident(t)
        if t.op in ("call", "alloc") and t.a[0] in ("builtins.int", "numpy.int32", "numpy.int64") and t.a[1]:
            t = t.a[1][0]
        elif t.op == "cast":
            t = t.a[-1]
        else:
            return t


def at_most_n(t):
    """definitely <= N; False when definitely may exceed it; None unknown"""
    t = strip(t)
    if t is N:
        return True
    if t.op in ("call", "alloc") and t.a[0] in ("builtins.min", "numpy.minimum") and t.a[1]:
        r = [at_most_n(x) for x in t.a[1]]
        return True if True in r else (None if None in r else False)
    if t.op in ("call", "alloc") and t.a[0] in ("builtins.max", "numpy.maximum"):
        r = [at_most_n(x) for x in t.a[1]]
        return True if all(r) else (False if any(x is not True for x in r) and N in t.a[1] else None)
    d = native.linear(t)
    if d.get(N) == 1:
        rest = {k: v for k, v in d.items() if k is not N}
        if all((v < 0 and (k == 1 or positive(k))) for k, v in rest.items()):
            return True
        if any(v > 0 for v in rest.values()):
            return False
    if d.get(N, 0) > 1:
        return False
    if whole(t):
        return False
    return None


def positive(t):
    return t.op in ("call", "alloc") and t.a[0] == "builtins.len" or t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" or \
        t.op == "attr" and t.a[1] in ("size", "nnz")


def whole(t):
    """the number of all candidates"""
    t = strip(t)
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        return any(x.op == "attr" and x.a[1] in ("similarity", "item_factors", "user_factors") for x in walk(t))
    if t.op == "call" and t.a[0] == "builtins.len":
        return any(x.op == "attr" and x.a[1] in ("similarity", "item_factors", "user_factors") for x in walk(t))
    return t.op == "attr" and t.a[1] == "ntotal" or t.op == "meth" and t.a[1] in ("get_n_items",)


def len_of(part):
    """the ways to write the number of entries of part"""
    out = set()
    for b in {part, Q.unwrap(part)}:
        out |= {mk("call", "builtins.len", (b,), ()), mk("attr", b, "size"), mk("sub", mk("attr", b, "shape"), mk("const", "int", 0))}
        if b.op == "attr" and b.a[1] == "indices":
            out |= {mk("attr", b.a[0], "nnz"), mk("meth", b.a[0], "getnnz", (), ())}
    return out


def uniques(t):
    """the list behind its distinct entries: removing ids takes away at most that many results"""
    t = Q.unwrap(t)
    while t.op in ("call", "alloc") and t.a[0] in ("numpy.unique", "builtins.set", "builtins.frozenset") and len(t.a[1]) == 1 and not t.a[2]:
        t = Q.unwrap(t.a[1][0])
    return t


def normal_len(t):
    """linear form with len(conversions of x) written as len(x)"""
    d = {}
    for k, v in native.linear(t).items():
        if isinstance(k, T) and k.op == "call" and k.a[0] == "builtins.len" and k.a[1]:
            k = mk("call", "builtins.len", (uniques(k.a[1][0]),), ())
        elif isinstance(k, T) and k.op == "attr" and k.a[1] == "size" and uniques(k.a[0]) is not Q.unwrap(k.a[0]):
            k = mk("attr", uniques(k.a[0]), "size")
        if isinstance(k, T) and k.op == "call" and k.a[0] == "builtins.len" and k.a[1]:
            ps = Q.parts(k.a[1][0])
            if len(ps) > 1:
                for q in ps:
                    q = mk("call", "builtins.len", (Q.unwrap(q),), ())
                    d[q] = d.get(q, 0) + v
                continue
            k = mk("call", "builtins.len", (Q.unwrap(k.a[1][0]),), ())
        elif isinstance(k, T) and k.op == "attr" and k.a[1] == "size":
            k = mk("call", "builtins.len", (Q.unwrap(k.a[0]),), ())
        d[k] = d.get(k, 0) + v
    return d


def covers(count, parts):
    """count >= N + sum(len(part)); True / False / None"""
    count = strip(count)
    if whole(count):
        return True
    if count.op in ("call", "alloc") and count.a[0] in ("builtins.min", "numpy.minimum") and count.a[1]:
        r = [covers(x, parts) for x in count.a[1]]
        return True if all(x is True for x in r) else (False if False in r else None)
    if count.op in ("call", "alloc") and count.a[0] in ("builtins.max", "numpy.maximum") and count.a[1]:
        r = [covers(x, parts) for x in count.a[1]]
        return True if any(x is True for x in r) else (None if None in r else False)
    d = normal_len(count)
    for k, v in list(d.items()):
        # N + min(len(x), other) with an unrelated other is not N + len(x)
        if isinstance(k, T) and k.op in ("call", "alloc") and k.a[0] in ("builtins.min", "numpy.minimum") and v == 1 and k.a[1]:
            rest = {q: w for q, w in d.items() if q is not k}
            r = [covers_form({**rest, **{q: rest.get(q, 0) + w for q, w in normal_len(x).items()}}, parts) for x in k.a[1]]
            return True if all(x is True for x in r) else (False if False in r else None)
        # N + len(x) // 2 is not N + len(x)
        if isinstance(k, T) and k.op == "bin" and k.a[0] in ("//", "/") and is_const(k.a[2]) and isinstance(cval(k.a[2]), (int, float)) and cval(k.a[2]) > 1 and v == 1 and \
                set(normal_len(k.a[1])) <= {y for q in parts for x in len_of(q) for y in normal_len(x)}:
            return covers_form({q: w for q, w in d.items() if q is not k}, parts)
    return covers_form(d, parts)


def covers_form(d, parts):
    if any(isinstance(k, T) and k is not N and not positive(k) for k in d):
        return None                     # something we do not know the size of
    if d.get(N, 0) < 1 or d.get(1, 0) < 0:
        return False
    for q in parts:
        names = len_of(q)
        u = Q.unwrap(q)
        while u.op in ("call", "alloc") and u.a[0] in ("numpy.setdiff1d", "numpy.unique", "builtins.set", "builtins.frozenset") and u.a[1]:
            u = Q.unwrap(u.a[1][0])         # no longer than the list it is taken from
            names |= len_of(u)
        n = sum(v for k, v in d.items() if k in names)
        if n < 1:
            return False
    return True


def bounded(ctx, construct, f, p, a):
    ctx.obligation("bounded", construct)
    n = count_of(a.source, a.name)
    state = True if n == "default" else False if n == "all" else None if n is None else at_most_n(n)
    if n == "default":
        state = None
    grown = None
    for o in a.ops:
        if o[0] == "sel" and o[1].op == "slice" and o[1].a[1] is not NONE:
            s = at_most_n(o[1].a[1])
            if s:
                state, grown = True, None
            elif s is None and state is False:
                state = None
        elif o[0] == "sel" and o[1].op == "slice":
            lo = o[1].a[0]
            if lo is not NONE and lo.op == "un" and at_most_n(lo.a[1]):
                state, grown = True, None
        elif o[0] == "sel" and not R.is_mask(o[1]) and state is False:
            s = index_len(o[1])
            if s is True:
                state = True
            elif s is None:
                state = None
        elif o[0] in ("append", "prepend"):
            # N - len(x) appended to x makes exactly N
            if not tops_up(o[1]):
                grown = o
        elif o[0] == "rows":
            s = row_len(o[1])
            if s is True:
                state, grown = True, None
        elif o[0] == "inplace":
            state = None
    if grown is not None:
        ctx.violation("bounded", construct + ":grow", "ids are appended after the ranking was cut to N", where(f), api.path_steps(p.events))
    elif state is False:
        ctx.violation("bounded", construct, "returns every result of %s, asked for %s, without cutting to N" % (a.name, str(n)[:100]), where(f),
                      api.path_steps(p.events))
    elif state is None:
        ctx.saw("not_understood", construct + ": count " + str(n)[:80])


def index_len(i):
    if i.op in ("call", "alloc") and i.a[0] in ("numpy.argsort", "numpy.lexsort"):
        return False
    if i.op == "meth" and i.a[1] == "argsort":
        return False
    return None


def tops_up(t):
    from .c07 import amount
    n = amount(t)
    return n[0] == "n" and at_most_n(n[1]) is True


def row_len(alloc):
    if alloc.a[0] in ("numpy.zeros", "numpy.full", "numpy.empty", "numpy.ones") and alloc.a[1]:
        s = alloc.a[1][0]
        if s.op in ("tuple", "list") and isinstance(s.a[0], tuple) and len(s.a[0]) == 2:
            return at_most_n(s.a[0][1])
    return None


def enough(ctx, construct, f, p, a):
    n = count_of(a.source, a.name)
    if not isinstance(n, T):
        return
    for o in a.ops:
        if o[0] != "sel":
            continue
        m = R.membership(o[1])
        if m is None:
            continue
        ctx.obligation("enough", construct)
        tested, lst, keeps = m
        if keeps:
            r = whole(n) or (None if at_most_n(n) is None else False)
            what = "everything outside the requested subset is removed"
        else:
            r = covers(n, Q.parts(lst))
            what = "%d lists of excluded ids are removed" % len(Q.parts(lst))
        if r is False:
            ctx.violation("enough", construct, "only %s candidates are fetched before %s" % (str(n)[:120], what), where(f), api.path_steps(p.events))
        elif r is None:
            ctx.saw("not_understood", construct + ": candidates " + str(n)[:80])


# ---------------------------------------------------------------- shape
def scalar_facts(facts, idp):
    out = set()
    for t, v in facts.items():
        t = t.a[0] if t.op == "truth" else t
        if t.op == "call" and t.a[0] == "numpy.isscalar" and t.a[1]:
            out.add((idp in Q.params_of(t.a[1][0]), bool(v)))
    # tests of derived values are not always correlated with the id by the engine: contradictory combinations are infeasible
    return out if any(x for x, _ in out) else set()


def shape(ctx, construct, f, p, a, alloc):
    params = [x for x in f.params if x not in ("self", "cls")]
    if not params:
        return
    for facts in p.st.full_facts():
        vals = {v for _, v in scalar_facts(facts, params[0])}
        if len(vals) == 1:
            shape_of(ctx, construct, f, p, a, alloc, params, vals.pop())


def shape_of(ctx, construct, f, p, a, alloc, params, scalar):
    ctx.obligation("shape", construct)
    rows = [o for o in a.ops if o[0] == "rows"]
    picks = [o for o in a.ops if o[0] == "row"]
    steps = api.path_steps(p.events)
    two = a.name in TWO_D
    each = any(o[0] == "each" for o in a.ops)
    if scalar:
        if two and not picks and not each:
            ctx.violation("shape", construct + ":scalar", "a single id gets the two dimensional result of %s" % a.name, where(f), steps)
        elif two and picks and is_const(picks[0][1]) and cval(picks[0][1]) != 0 and not rows:
            ctx.violation("shape", construct + ":pick", "row %s of a one row result" % cval(picks[0][1]), where(f), steps)
        if rows and not two and not each:
            ctx.violation("shape", construct + ":scalar", "a single id gets a two dimensional result", where(f), steps)
    else:
        if picks and not rows:
            ctx.violation("shape", construct + ":batch", "a batch gets only row %s" % picks[0][1], where(f), steps)
        if not two and not rows and not each:
            ctx.violation("shape", construct + ":batch", "a batch gets the single ranking of %s" % a.name, where(f), steps)
    if rows and alloc is not None and alloc.a[0] in ("numpy.zeros", "numpy.full", "numpy.empty", "numpy.ones") and alloc.a[1]:
        s = alloc.a[1][0]
        if s.op in ("tuple", "list") and isinstance(s.a[0], tuple) and len(s.a[0]) == 2:
            n = s.a[0][0]
            if is_const(n):
                ctx.violation("shape", construct + ":rows", "a fixed number of %s rows is returned" % n, where(f), steps)
            elif Q.params_of(n) and params[0] not in Q.params_of(n):
                ctx.violation("shape", construct + ":rows", "%s rows are returned for %s" % (n, params[0]), where(f), steps)


# ---------------------------------------------------------------- padding
def pad_value(t):
    from .c07 import fill
    t = M.ident(t)
    v = fill(t)
    if v is not None:
        return v
    if t.op == "bin" and t.a[0] == "*":
        for x in (t.a[1], t.a[2]):
            if x.op == "list" and isinstance(x.a[0], tuple) and len(x.a[0]) == 1:
                return x.a[0][0]
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.arange", "numpy.empty"):
        return mk("glob", t.a[0])
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.repeat",) and t.a[1]:
        return t.a[1][0]
    return None


def num(t):
    if is_const(t) and isinstance(cval(t), (int, float)):
        return cval(t)
    if t.op == "un" and t.a[0] == "-":
        n = num(t.a[1])
        return -n if n is not None else None
    return None


def sentinel(v):
    n = num(v)
    return n is not None and n < 0


def padding(ctx, construct, f, p, a, alloc):
    steps = api.path_steps(p.events)
    for o in a.ops:
        if o[0] in ("append", "prepend"):
            ctx.obligation("padding", construct)
            v = pad_value(o[1])
            if v is None:
                # ids the caller listed
                if not Q.params_of(o[1]):
                    ctx.saw("not_understood", construct + ": appended " + str(o[1])[:80])
                elif missing_polarity(o[1], p) is False:
                    ctx.violation("padding", construct + ":twice", "appends listed ids that are already ranked", where(f), steps)
            elif not sentinel(v):
                ctx.violation("padding", construct, "short results are padded with id %s" % v, where(f), steps)
        elif o[0] == "rows":
            ctx.obligation("padding", construct)
            al, i = o[1], o[2]
            idx = i.a[0] if i.op == "tuple" else (i,)
            partial = len(idx) > 1 and isinstance(idx[1], T) and idx[1].op == "slice" and (idx[1].a[1] is not NONE or idx[1].a[0] is not NONE)
            if partial and not (full_n(idx[1])):
                v = fill_of(al)
                if v is not None and not sentinel(v):
                    ctx.violation("padding", construct + ":rows", "the unfilled part of a short row is left as id %s" % v, where(f), steps)
            elif a.name in Q.RANK and not any(x[0] in ("append", "prepend") for x in a.ops) and not length_known(p, a):
                ctx.violation("padding", construct + ":short", "a row of at most N results is stored as a full row without padding", where(f), steps)


def full_n(s):
    return False


def missing_polarity(t, p):
    """listed[mask]: False when the mask keeps ids that are already there"""
    t = M.ident(t)
    if t.op == "sub":
        m = R.membership(t.a[1])
        if m is not None:
            return not m[2]
    return None


def fill_of(al):
    d = al.a[0]
    if d in ("numpy.zeros", "numpy.zeros_like"):
        return mk("const", "int", 0)
    if d in ("numpy.ones", "numpy.ones_like"):
        return mk("const", "int", 1)
    if d in ("numpy.full", "numpy.full_like") and len(al.a[1]) > 1:
        return al.a[1][1]
    if d in ("numpy.empty", "numpy.empty_like"):
        return mk("glob", "uninitialised")
    return None


def length_known(p, a):
    """the path tested the length of the ranking against the requested count"""
    for t in p.st.facts:
        if N in set(walk(t)) and any(x.op == "call" and x.a[0] == "builtins.len" or x.op == "attr" and x.a[1] in ("size", "shape") for x in walk(t)):
            if any(x is a.source for x in walk(t)):
                return True
    return False


# ---------------------------------------------------------------- delegation
def delegated(ctx, construct, f, e, p):
    for ev in p.events:
        if ev.kind != "call":
            continue
        b = Q.bound_of(ctx.proj, e, ev)
        if b is None or b[0] not in Q.RANK or "N" not in b[1]:
            continue
        ctx.obligation("delegated-count", construct)
        n = b[1]["N"]
        if strip(n) is N:
            continue
        r = R.ranked(p) or []
        cut = any(o[0] == "sel" and o[1].op == "slice" and at_most_n(o[1].a[1]) for a, _, _, _ in r for o in a.ops)
        if at_most_n(n) is False and not cut:
            ctx.violation("delegated-count", construct, "asks %s for %s results" % (b[0], str(n)[:80]), ev.where, api.path_steps(p.events))
        elif is_const(n) and not cut:
            ctx.violation("delegated-count", construct, "asks %s for a fixed %s results" % (b[0], cval(n)), ev.where, api.path_steps(p.events))


# ---------------------------------------------------------------- native
def native_counts(ctx):
    f = native.topk_func(ctx.proj)
    if f is not None:
        e, paths = native.run(ctx, f)
        k, items = mk("param", f.params[2]), mk("param", f.params[0])
        for p in paths:
            if p.kind != "ret" or p.value.op != "tuple" or len(p.value.a[0]) != 2:
                continue
            ctx.obligation("native-count", f.qual)
            al = base_alloc(p.value.a[0][0])
            dims = dims_of(al)
            if dims is None:
                ctx.saw("not_understood", "topk output " + str(al)[:60])
                continue
            tested = any(k in set(walk(t)) and items in set(walk(t)) for t in p.st.facts)
            if not is_min_of(dims[1], k, items) and items not in set(walk(dims[1])) and not tested and fill_of(al) is not None and not sentinel(fill_of(al)):
                ctx.violation("native-count", f.qual + ":clamp", "%s results are returned per row although there may be fewer candidates; the rest stay id %s"
                              % (dims[1], fill_of(al)), where(f), api.path_steps(p.events))
            top = strip(dims[1])
            if not tested and within(top, k) is False:
                ctx.violation("native-count", f.qual + ":more", "%s results are returned per row for the %s asked for" % (str(top)[:80], k), where(f), api.path_steps(p.events))
            elif top.op in ("call", "alloc") and top.a[0] in ("builtins.max", "numpy.maximum") and not tested:
                ctx.violation("native-count", f.qual + ":max", "%s results are returned per row: more than were asked for or than there are candidates" % str(top)[:80], where(f),
                              api.path_steps(p.events))
            elif k not in set(walk(top)) and items in set(walk(top)) and not tested:
                ctx.violation("native-count", f.qual + ":all", "%s results are returned per row, whatever was asked for" % str(top)[:80], where(f), api.path_steps(p.events))
            for ev in p.events:
                if ev.kind == "call" and isinstance(ev[0], str) and ev[0].rsplit(".", 1)[-1] == "select" and len(ev[1][0]) >= 4:
                    if native.diff(ev[1][0][3], dims[1]):
                        ctx.violation("native-count", f.qual + ":k", "select is asked for %s results per row of %s" % (ev[1][0][3], dims[1]), ev.where,
                                      api.path_steps(p.events))
    c = native.scorer_class(ctx.proj)
    f = c.methods.get("recommend") if c else None
    if f is not None:
        e, paths = native.run(ctx, f, c)
        for p in paths:
            if p.kind != "ret" or p.value.op != "tuple" or len(p.value.a[0]) != 2:
                continue
            ctx.obligation("native-count", c.qual + ".recommend")
            for v in p.value.a[0]:
                al = base_alloc(v)
                if al is None or not al.a[1]:
                    continue
                n = strip(al.a[1][0])
                ps = Q.params_of(n)
                if ps and not any(x.op == "meth" and x.a[1] == "size" for x in walk(n)):
                    ctx.violation("native-count", c.qual + ".recommend", "the result has %s entries whatever was found" % n, where(f), api.path_steps(p.events))


def base_alloc(t):
    t = M.ident(t)
    while t.op in ("upd", "inpl", "cast"):
        t = t.a[0] if t.op != "cast" else t.a[-1]
    return t if t.op == "alloc" else None


def dims_of(al):
    if al is None or not al.a[1]:
        return None
    s = al.a[1][0]
    if s.op in ("tuple", "list") and isinstance(s.a[0], tuple) and len(s.a[0]) == 2:
        return s.a[0]
    return None


def within(t, k):
    """t <= k for every k; False when it is k plus some other count"""
    t = strip(t)
    if t is k:
        return True
    if t.op in ("call", "alloc") and t.a[0] in ("builtins.min", "numpy.minimum") and t.a[1]:
        r = [within(x, k) for x in t.a[1]]
        # min(k + extra, number of candidates): more than k whenever there are enough candidates
        return True if True in r else False if False in r else None
    d = native.linear(t)
    # a requested count inside a min is bounded by it
    for x, v in list(d.items()):
        if isinstance(x, T) and x is not k and v == 1 and x.op in ("call", "alloc") and x.a[0] in ("builtins.min", "numpy.minimum") and k in x.a[1]:
            d = {**{q: w for q, w in d.items() if q is not x}, k: d.get(k, 0) + 1}
    if d.get(k) == 1:
        rest = [(x, v) for x, v in d.items() if x is not k]
        if rest and all(v > 0 and (x == 1 or isinstance(x, T) and positive(x)) for x, v in rest):
            return False
    return None


def is_min_of(t, k, items):
    """bounded by both the requested count and the number of candidates"""
    t = strip(t)
    if t.op in ("call", "alloc") and t.a[0] in ("builtins.min", "numpy.minimum"):
        ok = any(items in set(walk(x)) for x in t.a[1])
        return ok
    if t.op == "ite":
        return items in set(walk(t))
    return False
