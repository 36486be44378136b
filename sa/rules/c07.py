"""C07: returned ids and scores stay paired and ordered best first."""
from .. import api
from .. import model as M
from .. import native
from .. import query as Q
from .. import ranks as R
from ..terms import NONE, cval, is_const, mk, walk

MINIMUM = {"queries": 8, "understood": 5}


def where(f):
    return "%s:%d (%s)" % (f.file, f.node.lineno, f.qual)


def check(ctx):
    proj = ctx.proj
    ctx.rule("paired", "every selection, reordering, truncation, padding and row placement applied to the returned ids is applied to the returned scores, "
             "with the same index and in the same order, and both come from the same ranking")
    ctx.rule("ordered", "the ranking is descending when returned: its source is ordered (or it is sorted by the returned scores), every later selection "
             "keeps the order and the arithmetic turning distances into scores reverses it exactly once")
    ctx.rule("native-pair", "native code stores the id and the score of one heap entry at the same output position")
    ctx.rule("native-order", "native results are sorted (descending) between the last insertion and being copied out")
    ctx.assume("factor norms, query norms and scalings used to rescale scores are positive; distances returned by the index libraries are ascending, "
               "inner products descending")
    for c in api.model_classes(proj):
        for f in Q.ranking_methods(proj, c):
            construct = "%s.%s" % (c.qual, f.name)
            ctx.saw("queries", construct)
            e, paths = api.run(ctx, f, c)
            for p in paths:
                if p.kind != "ret":
                    continue
                r = R.ranked(p)
                if r is None:
                    ctx.saw("not_understood", "%s: %s" % (construct, str(p.value)[:120]))
                    swapped(ctx, construct, f, p)
                    continue
                for a, b, x, y in r:
                    ctx.count("understood")
                    ctx.obligation("paired", construct)
                    ctx.obligation("ordered", construct)
                    pair(ctx, construct, f, e, p, a, b)
        f = proj.method(c, "explain")
        if f is not None:
            explained(ctx, c, f)
    select(ctx)
    scorer(ctx)
    topk_offsets(ctx)


# ---------------------------------------------------------------- explanations
def explained(ctx, c, f):
    """the contributions listed by explain: best first, cut so that the best remain"""
    construct = "%s.explain" % c.qual
    e, paths = api.run(ctx, f, c)
    for p in paths:
        if p.kind != "ret" or p.value.op != "tuple" or len(p.value.a[0]) < 2:
            continue
        pushed = [ev for ev in p.events if ev.kind == "mut" and isinstance(ev[1], str) and ev[1].startswith(("heapq.heappush:", "heapq.heappushpop:", "heapq.heapreplace:"))]
        keys = {push_sign(ev[3]) for ev in pushed}
        ctx.obligation("ordered", construct)
        d = listing(p.value.a[0][1], p)
        if d is None or len(keys) > 1 or None in keys:
            ctx.saw("not_understood", "%s: %s" % (construct, str(p.value.a[0][1])[:100]))
            continue
        sign = keys.pop() if keys else 1
        steps = api.path_steps(p.events)
        if d * sign == -1:
            ctx.violation("ordered", construct + ":direction", "contributions are listed worst first", where(f), steps)
        elif d == 0 and pushed:
            ctx.violation("ordered", construct + ":unsorted", "contributions are listed in heap order", where(f), steps)
        if sign == -1 and any(not ev[1].startswith("heapq.heappush:") for ev in pushed):
            ctx.violation("ordered", construct + ":kept", "the heap drops the best contribution when it is full", where(f), steps)


def push_sign(t):
    """1 when entries are keyed by the score, -1 by its negative, None otherwise"""
    if t.op != "call" or len(t.a[1]) < 2:
        return None
    x = t.a[1][1]
    if x.op != "tuple" or len(x.a[0]) != 2:
        return None
    k = x.a[0][0]
    return -1 if k.op == "un" and k.a[0] == "-" else 1


def listing(t, p):
    """direction of the keys in a list drained from a heap: 1 descending, -1 ascending, 0 heap order, None unknown"""
    if t.op == "sub" and t.a[1].op == "slice":
        lo, hi, st = t.a[1].a
        d = listing(t.a[0], p)
        if lo is NONE and hi is NONE and st is not NONE and is_const(st) and cval(st) == -1:
            return -d if d is not None else None
        return d if lo is NONE and hi is NONE and st is NONE else None
    if t.op in ("call", "alloc"):
        d, a, k = t.a[0], t.a[1], t.a[2]
        if d in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) == 1:
            return listing(a[0], p)
        if d == "builtins.reversed" and a:
            r = listing(a[0], p)
            return -r if r is not None else None
        if d == "builtins.sorted" and a and not swaps(a[0]):
            if M.kwget(k, "key") is not None:
                return None
            r = M.kwget(k, "reverse")
            return -1 if r is None or (is_const(r) and not cval(r)) else 1 if is_const(r) else None
        return None
    if t.op == "comp" and len(t.a[1]) == 1 and len(t.a[2]) == 1:
        elt = t.a[1][0]
        it, conds = t.a[2][0][0], t.a[2][0][1]
        if conds:
            return None
        if elt.op == "call" and elt.a[0] == "heapq.heappop":
            return -1
        el = t.a[2][0][2]
        if elt is el or swap_of(elt, el) is not None:
            return listing(it, p)
        return None
    t = M.ident(t)
    if t.op == "list" and not any(ev.kind == "mut" and ev[1] in (".sort", ".reverse") and M.ident(ev[0]) is t for ev in p.events):
        return 0
    return None


def swap_of(elt, el):
    if elt.op == "tuple" and len(elt.a[0]) == 2:
        idx = []
        for x in elt.a[0]:
            if x.op != "sub" or x.a[0] is not el or not is_const(x.a[1]):
                return None
            idx.append(cval(x.a[1]))
        return tuple(idx) if sorted(idx) == [0, 1] else None
    return None


def swaps(t):
    return t.op == "comp" and len(t.a[1]) == 1 and t.a[1][0].op == "tuple"


def swapped(ctx, construct, f, p):
    v = p.value
    if v.op != "tuple" or len(v.a[0]) != 2:
        return
    a = R.chain(v.a[0][0])
    b = R.chain(v.a[0][1])
    if isinstance(a, R.Chain) and a.comp == "scores" or isinstance(b, R.Chain) and b.comp == "ids":
        ctx.violation("paired", construct + ":swapped", "returns scores where ids belong", where(f), api.path_steps(p.events))


def canon(o):
    """comparable form of one operation"""
    if o[0] in ("sel", "row"):
        return (o[0], R_index(o[1]))
    if o[0] == "rows":
        return ("rows", o[2])
    if o[0] in ("append", "prepend"):
        return (o[0], amount(o[1]))
    return o


def R_index(i):
    # a row taken by a constant and by a slice mean different things; everything else is compared as a value
    return i


def amount(t):
    """number of appended values"""
    t = M.ident(t)
    if t.op in ("call", "alloc"):
        d, a = t.a[0], t.a[1]
        if d in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty") and a:
            return size_of(a[0])
        if d in ("numpy.full_like", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.array", "numpy.asarray") and a:
            return amount(a[0])
        if d == "numpy.repeat" and len(a) == 2:
            return size_of(a[1])
    if t.op == "bin" and t.a[0] == "*":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == "list":
                return size_of(y)
    return ("len", t)


def size_of(n):
    n = M.ident(n)
    if n.op == "attr" and n.a[1] == "size":
        return ("len", M.ident(n.a[0]))
    if n.op == "call" and n.a[0] == "builtins.len" and n.a[1]:
        return ("len", M.ident(n.a[1][0]))
    if n.op == "sub" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1]) and cval(n.a[1]) == 0:
        return ("len", M.ident(n.a[0].a[0]))
    if n.op == "attr" and n.a[1] == "shape":
        return ("len", M.ident(n.a[0]))
    return ("n", n)


def same_amount(a, b):
    if a == b:
        return True
    # both computed from the two halves of the same ranking: N - len(ids) and N - len(scores)
    if a[0] == "n" and b[0] == "n":
        def halves(t):
            from ..terms import rewrite

            def f(x):
                if x.op == "call" and x.a[0] == "builtins.len" and x.a[1]:
                    c = R.chain(x.a[1][0])
                    if isinstance(c, R.Chain):
                        return mk("call", "builtins.len", (c.source,), ())
                return x
            return rewrite(t, f)
        return halves(a[1]) is halves(b[1])
    return None


def halve(t):
    """the same selection expressed over ids or over scores of one ranking"""
    return t


def pair(ctx, construct, f, e, p, a, b):
    steps = api.path_steps(p.events)
    if a.comp == "scores" and b.comp == "ids":
        ctx.violation("paired", construct + ":swapped", "returns scores where ids belong", where(f), steps)
        return
    if a.source is not b.source:
        ctx.violation("paired", construct + ":source", "ids come from %s and scores from %s" % (str(a.source)[:100], str(b.source)[:100]), where(f), steps)
        return
    if a.comp == b.comp:
        ctx.violation("paired", construct + ":same", "ids and scores are both the %s of the ranking" % a.comp, where(f), steps)
        return
    x, y = R.selections(a), R.selections(b)
    if len(x) != len(y):
        cx, cy = [canon(o) for o in x], [canon(o) for o in y]
        extra = [o for o in x if canon(o) not in cy] or [o for o in y if canon(o) not in cx] or (x + y)
        ctx.violation("paired", construct + ":count", "%s is applied to only one of ids and scores" % describe(extra[0]), where(f), steps)
        return
    for o, q in zip(x, y):
        if o[0] != q[0]:
            ctx.violation("paired", construct + ":kind", "ids: %s, scores: %s" % (describe(o), describe(q)), where(f), steps)
            return
        if o[0] in ("append", "prepend"):
            s = same_amount(amount(o[1]), amount(q[1]))
            if s is None:
                ctx.saw("not_understood", "%s: appended amounts" % construct)
            elif not s:
                ctx.violation("paired", construct + ":append", "appends a different number of ids and scores", where(f), steps)
            continue
        if canon(o) != canon(q):
            ctx.violation("paired", construct + ":index", "ids: %s, scores: %s" % (describe(o), describe(q)), where(f), steps)
            return
    ordered(ctx, construct, f, e, p, a, b, steps)


def describe(o):
    return "%s %s" % ({"sel": "selection", "row": "row", "append": "appending", "rows": "storing row", "store": "storing", "each": "per-row lookup",
                       "inplace": "in-place"}.get(o[0], o[0]), str(o[1])[:90] if len(o) > 1 else "")


def sign_of(t):
    """-1 / 1 for values of known sign, None otherwise (assumed positive)"""
    if is_const(t) and isinstance(cval(t), (int, float)):
        return 1 if cval(t) > 0 else -1 if cval(t) < 0 else 0
    if t.op == "un" and t.a[0] == "-":
        s = sign_of(t.a[1])
        return -s if s is not None else -1
    if t.op == "bin" and t.a[0] in ("*", "/"):
        l, r = sign_of(t.a[1]), sign_of(t.a[2])
        return (l if l is not None else 1) * (r if r is not None else 1)
    return None


def arith_dir(o):
    """1 keeps the order, -1 reverses it, None unknown"""
    op, other, left = o[1], o[2], o[3]
    if op == "neg":
        return -1
    if op == "mono":
        return 1
    if op == "+":
        return 1
    if op == "-":
        return 1 if left else -1
    if op in ("*", "/"):
        if op == "/" and not left:
            return -1
        s = sign_of(other)
        return 1 if s is None else (s or None)
    if op == "**":
        return 1 if left and (sign_of(other) or 1) > 0 else None
    return None


def sorting(i, chain_terms):
    """index of the form argsort(key): -> (key term, direction, count-preserving prefix) or None"""
    d = 1
    prefix_before = False
    while True:
        i = M.ident(i)
        if i.op == "sub" and i.a[1].op == "slice":
            lo, hi, st = i.a[1].a
            if st is not NONE and is_const(st) and cval(st) == -1 and lo is NONE and hi is NONE:
                d = -d
                i = i.a[0]
                continue
            if (st is NONE or (is_const(st) and cval(st) == 1)) and (lo is NONE or (is_const(lo) and cval(lo) == 0)):
                prefix_before = True
                i = i.a[0]
                continue
            if (st is NONE) and hi is NONE and lo.op == "un":
                # [-N:] keeps the last ones
                d2 = sorting(i.a[0], chain_terms)
                return None if d2 is None else (d2[0], d2[1] * d, True)
            if st is not NONE and is_const(st) and cval(st) == -1 and lo is NONE:
                d = -d
                i = i.a[0]
                continue
            return None
        if i.op in ("call", "alloc") and i.a[0] in ("numpy.flip", "numpy.flipud") and i.a[1]:
            d = -d
            i = i.a[1][0]
            continue
        break
    key = None
    if i.op in ("call", "alloc") and i.a[0] == "numpy.argsort" and i.a[1]:
        key = i.a[1][0]
    elif i.op == "meth" and i.a[1] == "argsort":
        key = i.a[0]
    if key is None:
        return None
    if key.op == "un" and key.a[0] == "-":
        d, key = -d, key.a[1]
    return key, -d, prefix_before    # -d: argsort is ascending, so direction 1 becomes ascending


def magnitude(t):
    """x when t is |x| or its square"""
    t = M.ident(t)
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.abs", "numpy.absolute", "numpy.fabs", "numpy.square", "builtins.abs") and t.a[1]:
        return t.a[1][0]
    if t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]) and cval(t.a[2]) == 2:
        return t.a[1]
    return None


def ordered(ctx, construct, f, e, p, a, b, steps):
    state = {"desc": 1, "asc": -1, None: 0}[b.order]      # 1 best first, -1 worst first, 0 unordered
    truncated = False
    for n, o in enumerate(b.ops):
        if o[0] == "arith":
            d = arith_dir(o)
            if d is None:
                if elementwise(o[2], p):
                    state = None
                continue
            if state:
                state *= d
        elif o[0] == "sel":
            i = o[1]
            if i.op == "slice":
                lo, hi, st = i.a
                best = state
                for x in b.ops[n + 1:]:
                    if x[0] == "arith" and best:
                        d = arith_dir(x)
                        best = best * d if d else None
                if st is not NONE and is_const(st) and cval(st) < 0:
                    state = -state if state else state
                    best = -best if best else best
                head = not (lo is NONE or (is_const(lo) and cval(lo) == 0))
                if head and best == 1:
                    ctx.violation("ordered", construct + ":suffix", "drops the best results: %s" % describe(o), where(f), steps)
                    return
                if hi is not NONE and best == -1 or (head or hi is not NONE) and best == 0:
                    truncated = True
                continue
            if R.is_mask(i):
                continue
            s = sorting(i, None)
            if s is not None:
                key, d, pre = s
                m = magnitude(key)
                m = R.chain(m) if m is not None else None
                if isinstance(m, R.Chain) and m.comp == "scores" and m.source is b.source and not any(x[0] == "arith" and x[1] in ("**", "abs") for x in m.ops):
                    ctx.violation("ordered", construct + ":key", "orders the results by the magnitude of the score", where(f), steps)
                    return
                k = R.chain(key)
                if isinstance(k, R.Chain) and k.comp == "scores" and k.source is b.source:
                    state = d
                    for x in k.ops[n:] if k.ops[:n] == b.ops[:n] else ():
                        t = arith_dir(x) if x[0] == "arith" else None
                        state = state * t if t and state else None
                elif isinstance(k, R.Chain) and k.comp == "ids":
                    ctx.violation("ordered", construct + ":key", "orders the results by id", where(f), steps)
                    return
                else:
                    state = None
                continue
            state = None
        elif o[0] == "prepend":
            state = 0 if state is not None else None
        elif o[0] == "append":
            v = fill(o[1])
            if v is not None and not lowest(v):
                if state != 0:
                    ctx.violation("ordered", construct + ":append", "appends score %s after the ranked results" % v, where(f), steps)
        elif o[0] in ("inplace", "store"):
            state = None
    if truncated:
        ctx.violation("ordered", construct + ":truncate", "truncates the results before they are ordered", where(f), steps)
        return
    if state == -1:
        ctx.violation("ordered", construct + ":direction", "results are returned worst first", where(f), steps)
    elif state == 0:
        ctx.violation("ordered", construct + ":unsorted", "results of %s are returned without being ordered by score" % b.name, where(f), steps)
    elif state is None:
        ctx.saw("not_understood", "%s: order" % construct)


def elementwise(t, p):
    return True


def fill(t):
    t = M.ident(t)
    if t.op in ("call", "alloc"):
        if t.a[0] in ("numpy.full", "numpy.full_like") and len(t.a[1]) > 1:
            return t.a[1][1]
        if t.a[0] in ("numpy.zeros", "numpy.zeros_like"):
            return mk("const", "int", 0)
    return None


def lowest(v):
    if is_const(v):
        return isinstance(cval(v), (int, float)) and cval(v) < -1e30
    if v.op == "un" and v.a[0] == "-":
        return any(x.op == "attr" and x.a[1] == "max" or x.op == "glob" and x.a[0].endswith("inf") for x in walk(v))
    if v.op == "attr" and v.a[1] == "min":
        return True
    return any(x.op == "glob" and x.a[0].lower().endswith(("ninf", "inf")) for x in walk(v)) and v.op != "glob"


# ---------------------------------------------------------------- native
def entry_pairs(ctx, rule, construct, f, p, outs=None):
    """stores of .first / .second of a heap entry: same entry, same index"""
    first, second = [], []
    for ev in p.events:
        if ev.kind == "mut" and ev[1] == "setitem" and ev[3].op == "attr" and ev[3].a[1] in ("first", "second"):
            (first if ev[3].a[1] == "first" else second).append(ev)
    ctx.obligation(rule, construct)
    for s in second:
        mates = [x for x in first if x[3].a[0] is s[3].a[0]]
        if not mates:
            ctx.violation(rule, construct + ":mate", "the id of a heap entry is stored without that entry's score", s.where, api.path_steps(p.events))
        elif not any(same_index(x[2], s[2]) for x in mates):
            ctx.violation(rule, construct + ":index", "id stored at %s, its score at %s" % (s[2], mates[0][2]), s.where, api.path_steps(p.events))
    for x in first:
        if not any(s[3].a[0] is x[3].a[0] for s in second):
            ctx.violation(rule, construct + ":mate", "the score of a heap entry is stored without that entry's id", x.where, api.path_steps(p.events))
    return first, second


def same_index(a, b):
    return a is b or not native.diff(a, b)


def sorted_before(ctx, construct, f, p, first):
    """a sort call on the results after the last insertion and before they are copied"""
    ctx.obligation("native-order", construct)
    if not first:
        return
    pos = {id(ev): i for i, ev in enumerate(p.events)}
    copy = min(pos[id(x)] for x in first)
    ins = [i for i, ev in enumerate(p.events[:copy]) if ev.kind == "call" and isinstance(ev[0], str)
           and ev[0].rsplit(".", 1)[-1].replace("method:", "") in ("push_heap", "push_back", "foreach", "emplace_back")]
    last = max(ins, default=-1)
    # not within the copying loop itself: a sort later in source order but earlier in the path counts too
    for i in range(last + 1, copy):
        ev = p.events[i]
        if ev.kind == "call" and isinstance(ev[0], str) and ev[0].rsplit(".", 1)[-1] in ("sort_heap", "sort", "stable_sort"):
            return
    ctx.violation("native-order", construct, "results are copied out without being sorted after the last insertion", first[0].where,
                  api.path_steps(p.events))


def comparators(ctx, fname, types, where_):
    for n, t in types.items():
        if "std::less" in t.replace(" ", "") and "pair" in t:
            ctx.violation("native-order", fname + ":" + n, "the heap is ordered by std::less: sorting it leaves the worst result first", where_)


def select(ctx):
    f = native.cpp(ctx, "select")
    if f is None:
        ctx.note("native select not found")
        return
    e, paths = native.run(ctx, f)
    import ast
    types = {n.target.id: n.annotation.value for n in ast.walk(f.node) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
             and isinstance(n.annotation, ast.Constant)}
    comparators(ctx, "select", types, f.file)
    for p in paths:
        first, second = entry_pairs(ctx, "native-pair", "select", f, p)
        sorted_before(ctx, "select", f, p, first)
    c = ctx.proj.cpp.classes.get("TopK")
    if c is not None:
        comparators(ctx, "TopK", c.fields, "implicit/nearest_neighbours.h")


def scorer(ctx):
    c = native.scorer_class(ctx.proj)
    if c is None:
        return
    for n, f in c.methods.items():
        if n.startswith("__"):
            continue
        e, paths = native.run(ctx, f, c)
        for p in paths:
            if p.kind != "ret":
                continue
            first, second = entry_pairs(ctx, "native-pair", "%s.%s" % (c.qual, n), f, p)
            sorted_before(ctx, "%s.%s" % (c.qual, n), f, p, first)
            if p.value.op == "tuple" and len(p.value.a[0]) == 2 and first and second:
                i, s = (M.ident(x) for x in p.value.a[0])
                if M.ident(first[0][0]) is i and M.ident(second[0][0]) is s:
                    ctx.violation("native-pair", "%s.%s:swapped" % (c.qual, n), "returns scores where ids belong", where(f), api.path_steps(p.events))
    f = ctx.proj.find_func("implicit._nearest_neighbours.all_pairs_knn")
    if f is not None:
        e, paths = native.run(ctx, f)
        for p in paths:
            if p.kind == "ret":
                entry_pairs(ctx, "native-pair", f.qual, f, p)


def topk_offsets(ctx):
    f = native.topk_func(ctx.proj)
    if f is None:
        ctx.note("topk not found")
        return
    e, paths = native.run(ctx, f)
    for p in paths:
        for ev in p.events:
            if ev.kind == "call" and isinstance(ev[0], str) and ev[0].rsplit(".", 1)[-1] == "select" and len(ev[1][0]) >= 6:
                ctx.obligation("native-pair", f.qual)
                i, d = ev[1][0][4], ev[1][0][5]
                bi, oi = base_off(i)
                bd, od = base_off(d)
                if bi is None or bd is None:
                    ctx.saw("not_understood", "topk offsets")
                    continue
                if native.diff(oi, od):
                    ctx.violation("native-pair", f.qual + ":offset", "ids are written at offset %s, scores at %s" % (oi, od), ev.where, api.path_steps(p.events))
                v = p.value
                if p.kind == "ret" and v.op == "tuple" and len(v.a[0]) == 2:
                    if M.ident(bi) is M.ident(v.a[0][1]) and M.ident(bd) is M.ident(v.a[0][0]):
                        ctx.violation("native-pair", f.qual + ":swapped", "returns scores where ids belong", ev.where, api.path_steps(p.events))


def base_off(t):
    """pointer into an array: (array, offset)"""
    off = mk("const", "int", 0)
    if t.op == "bin" and t.a[0] == "+":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op in ("addr", "cast"):
                t, off = x, y
                break
    while t.op == "cast":
        t = t.a[-1]
    if t.op == "addr":
        b = t.a[0]
        if b.op == "sub":
            i = b.a[1]
            idx = i.a[0] if i.op == "tuple" else (i,)
            if all(is_const(x) and cval(x) == 0 for x in idx):
                return b.a[0], off
            return b.a[0], mk("bin", "+", off, mk("call", "flat", (i,), ()))
    return None, None
