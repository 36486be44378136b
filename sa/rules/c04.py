"""C04: exclusion filters are applied to every result row."""
from .. import api
from .. import model as M
from .. import native
from .. import query as Q
from .. import ranks as R
from ..terms import NONE, T, cval, is_const, kids, mk, walk
from .c05 import alternatives, conditional, mismatch, neutral
from .c07 import lowest, where
from .c08 import scalar_facts, scorer_call

MINIMUM = {"queries": 8, "understood": 5}
OPTS = ("filter_items", "filter_users", "filter_already_liked_items", "user_items")
LIKED = mk("param", "filter_already_liked_items")


def check(ctx):
    proj = ctx.proj
    ctx.rule("listed", "on every path on which an exclusion list may have been given, the ranking has it removed: passed to the scoring kernel or removed "
             "from the ids by a membership mask that drops members")
    ctx.rule("liked", "on every path on which liked items are to be filtered, the likes in the supplied interactions are removed in the same way")
    ctx.rule("own-row", "the likes of one row are removed from the ranking of that row, and a mask is computed from the ids it is applied to")
    ctx.rule("subset", "when only a subset of items is ranked, likes are translated to positions in the sorted subset before being removed")
    ctx.rule("delegated", "a request handed to another query keeps its exclusions")
    ctx.rule("kernel-mask", "the scoring kernel overwrites every excluded position of every row with the lowest score before selecting")
    ctx.rule("scorer-mask", "the neighbour scorer clears the score of every liked item after accumulating and before selecting")
    for c in api.model_classes(proj):
        for f in Q.ranking_methods(proj, c):
            construct = "%s.%s" % (c.qual, f.name)
            ctx.saw("queries", construct)
            e, paths = api.run(ctx, f, c)
            for p in paths:
                if p.kind == "ret":
                    path(ctx, construct, f, e, p)
    kernel(ctx)
    scorer(ctx)
    helper(ctx)


def path(ctx, construct, f, e, p):
    r = R.ranked(p)
    if r is None:
        ctx.saw("not_understood", "%s: %s" % (construct, str(p.value)[:120]))
        return
    delegated(ctx, construct, f, e, p)
    for a, b, x, y in r:
        ctx.count("understood")
        if a.name in Q.RANK and not scorer_call(a.source):
            own_masks(ctx, construct, f, p, a)
            continue
        own_masks(ctx, construct, f, p, a)
        for flt in ("filter_items", "filter_users"):
            if flt in f.params:
                ctx.obligation("listed", construct)
                if not neutral(e, p, flt):
                    listed(ctx, construct, f, p, a, flt)
        if "filter_already_liked_items" in f.params:
            ctx.obligation("liked", construct)
            if e.decide(mk("truth", LIKED), p.st) is not False:
                liked(ctx, construct, f, e, p, a)


def delegated(ctx, construct, f, e, p):
    params = [x for x in f.params if x in OPTS]
    for ev in p.events:
        if ev.kind != "call":
            continue
        b = Q.bound_of(ctx.proj, e, ev)
        if b is None or b[0] not in Q.RANK:
            continue
        name, bound, recv = b
        ctx.obligation("delegated", "%s -> %s" % (construct, name))
        ids = [bound[k] for k in ("userid", "itemid") if k in bound]
        for a in params:
            if a == "user_items":
                if a not in bound or e.decide(mk("truth", LIKED), p.st) is False:
                    continue
            elif Q.signature(ctx.proj, name) and a not in Q.signature(ctx.proj, name):
                continue
            msg = mismatch(e, p, a, bound.get(a), ids)
            if msg:
                ctx.violation("delegated", "%s -> %s:%s" % (construct, name, a), "exclusion '%s' %s when the request is handed to %s" % (a, msg, name),
                              ev.where, api.path_steps(p.events))


# ---------------------------------------------------------------- evidence of exclusion
def source_kw(s, *names):
    kws = s.a[3] if s.op == "meth" else s.a[2] if s.op == "call" else ()
    for n in names:
        v = M.kwget(kws, n)
        if v is not None:
            return v
    args = s.a[2] if s.op == "meth" else s.a[1] if s.op == "call" else ()
    # gpu: topk(items, query, k, norms, query_filter, item_filter)
    pos = {"query_filter": 4, "item_filter": 5} if s.op == "meth" else {}
    for n in names:
        if n in pos and len(args) > pos[n]:
            return args[pos[n]]
    return None


def excluded_parts(a):
    """what membership masks remove from the ids: [(part, op position)], and lists kept by inverted masks"""
    out, kept = [], []
    for n, o in enumerate(a.ops):
        if o[0] == "sel":
            m = R.membership(o[1])
            if m is not None:
                (kept if m[2] else out).extend((q, n) for q in Q.parts(m[1]))
    return out, kept


def listed(ctx, construct, f, p, a, flt):
    t = mk("param", flt)
    steps = api.path_steps(p.events)
    v = source_kw(a.source, "filter_items", "item_filter", "filter_users")
    if v is not None and any(Q.unwrap(q) is t for q in Q.parts(v)):
        return
    out, kept = excluded_parts(a)
    if any(Q.unwrap(q) is t for q, _ in out):
        return
    if any(Q.unwrap(q) is t for q, _ in kept):
        ctx.violation("listed", "%s:%s" % (construct, flt), "keeps only the ids listed in '%s' instead of removing them" % flt, where(f), steps)
        return
    # something else computed from it takes part in the selection: not understood
    if any(mentions(o[1], t, a.source) for o in a.ops if len(o) > 1 and isinstance(o[1], T)) or v is not None and t in set(walk(v)) \
            or a.source is not None and t in set(walk(a.source)) and not only_count(a.source, t):
        part = partial(a, v, t)
        if part is not None:
            ctx.violation("listed", "%s:%s" % (construct, flt), "only %s of the ids in '%s' are removed" % (part, flt), where(f), steps)
            return
        ctx.saw("not_understood", "%s: %s" % (construct, flt))
        return
    ctx.violation("listed", "%s:%s" % (construct, flt), "ids listed in '%s' are not removed from the result of %s" % (flt, a.name), where(f), steps)


def mentions(x, t, source):
    """t appears in x outside the ranking itself"""
    if x is source:
        return False
    if x is t:
        return True
    return any(mentions(k, t, source) for k in kids(x))


def only_count(s, t):
    """t only appears in lengths"""
    from ..terms import rewrite
    r = rewrite(s, lambda x: mk("const", "int", 0) if x.op == "call" and x.a[0] == "builtins.len" else x)
    return t not in set(walk(r))


def partial(a, v, t):
    """a proper part of the list: filter_items[...]"""
    vs = ([v] if v is not None else []) + [q for q, _ in excluded_parts(a)[0]]
    for x in vs:
        for q in Q.parts(x):
            q = Q.unwrap(q)
            if q.op in ("call", "alloc") and q.a[0] == "numpy.intersect1d" and any(Q.unwrap(y) is t for y in q.a[1]):
                return "those also in another list"
            if q.op == "sub" and Q.unwrap(q.a[0]) is t and q.a[1].op in ("slice", "const"):
                return q.a[1]
    return None


def liked(ctx, construct, f, e, p, a):
    ui = mk("param", "user_items")
    steps = api.path_steps(p.events)
    if scorer_call(a.source):
        v = source_kw(a.source, "remove_own_likes")
        if v is None and a.source.op == "meth" and len(a.source.a[2]) > 4:
            v = a.source.a[2][4]
        if v is None or Q.unwrap(v) is LIKED or is_const(v) and cval(v):
            return
        d = e.decide(v if v.op in ("isnone", "cmp", "not", "truth") else mk("truth", v), p.st)
        if d is True:
            return
        if is_const(v) or d is False:
            ctx.violation("liked", construct, "liked items are not filtered although that was asked for", where(f), steps)
        else:
            ctx.saw("not_understood", construct + ": remove_own_likes " + str(v)[:60])
        return
    v = source_kw(a.source, "filter_query_items", "query_filter")
    if v is not None and v is not NONE:
        if ui not in set(walk(v)):
            ctx.violation("liked", construct, "the likes removed are not those of the supplied interactions: %s" % str(v)[:80], where(f), steps)
            return
        subset(ctx, construct, f, e, p, a, v, steps)
        return
    out, kept = excluded_parts(a)
    for q, _ in kept:
        if ui in set(walk(q)):
            ctx.violation("liked", construct, "keeps only the liked items instead of removing them", where(f), steps)
            return
    hit = [q for q, _ in out if ui in set(walk(q))]
    if hit and all(q.op in ("call", "alloc") and q.a[0] == "numpy.intersect1d" for q in hit):
        ctx.violation("liked", construct + ":common", "only the likes that are also in another list are removed", where(f), steps)
        return
    for q in hit:
        part = valued(q, ui)
        if part is not None:
            ctx.violation("liked", construct + ":valued", "only the likes with %s are removed" % str(part)[:60], where(f), steps)
            return
        if q.op == "attr" and q.a[1] == "indices":
            m = Q.unwrap(q.a[0])
            if m is ui or m.op == "sub" and Q.unwrap(m.a[0]) is ui:
                if m.op == "sub" and is_const(m.a[1]) and cval(m.a[1]) != 0:
                    ctx.violation("own-row", construct, "uses the likes of row %s" % cval(m.a[1]), where(f), steps)
                elif (m is ui or is_const(m.a[1])) and any({v for _, v in scalar_facts(fa, f.params[1])} == {False} for fa in p.st.full_facts()):
                    ctx.violation("own-row", construct + ":batch", "every row of a batch is filtered with the likes %s" % str(m)[:60], where(f), steps)
                return
            return
        if q.op == "sub" and q.a[1].op == "slice" and (q.a[1].a[0] is not NONE or q.a[1].a[1] is not NONE):
            ctx.violation("liked", construct, "only part of the likes is removed: %s" % str(q)[:80], where(f), steps)
            return
        return
    # nothing to remove on this path: no stored likes
    for fa in p.st.full_facts():
        for t, val in fa.items():
            if val is False and t.op == "truth" and ui in set(walk(t)) and any(x.op == "attr" and x.a[1] in ("nnz", "size") or x.op == "call" and
                                                                           x.a[0] == "builtins.len" for x in walk(t)):
                return
    if any(mentions(o[1], ui, a.source) for o in a.ops if len(o) > 1 and isinstance(o[1], T)):
        ctx.saw("not_understood", construct + ": likes")
        return
    ctx.violation("liked", construct, "liked items are not removed from the result of %s although that may have been asked for" % a.name, where(f), steps)


def subset(ctx, construct, f, e, p, a, v, steps):
    """likes against a subset of the candidates"""
    cand = source_kw(a.source, "items")
    if cand is None:
        args = a.source.a[2] if a.source.op == "meth" else a.source.a[1]
        cand = args[0] if args else None
    if cand is None:
        return
    ctx.obligation("subset", construct)
    c = M.ident(cand)
    if c.op == "sub" and "items" in Q.params_of(c.a[1]):
        if "items" not in Q.params_of(v) and v_items(p, v) is False:
            ctx.violation("subset", construct, "likes are not translated to positions in the requested subset", where(f), steps)
            return
        for t, ev in terms_of(p, "numpy.searchsorted"):
            if len(t.a[1]) < 2 or "items" not in Q.params_of(t.a[1][0]):
                continue
            hay = t.a[1][0]
            side = M.kwget(t.a[2], "side")
            if side is not None and is_const(side) and cval(side) == "right" and direct(p, t):
                ctx.violation("subset", construct + ":side", "likes are looked up at the position after the one that holds them", ev.where, steps)
            if M.kwget(t.a[2], "sorter") is None and not is_sorted(hay):
                ctx.violation("subset", construct + ":sorted", "likes are looked up by binary search in a subset that was not sorted: %s" % str(hay)[:80],
                              ev.where, steps)
            elif Q.unwrap(hay) is Q.unwrap(c.a[1]) and is_sorted(hay) != is_sorted(c.a[1]):
                ctx.violation("subset", construct + ":order", "likes are translated with a differently ordered subset than the scores", ev.where, steps)
            ops = compared(p, t)
            if ops and ops <= {"<", "<="} or ops and ops <= {">", ">="}:
                ctx.violation("subset", construct + ":absent", "likes outside the subset are told apart by %s only: some exclude the item next to where they would be" % "/".join(sorted(ops)),
                              ev.where, steps)
        fresh = False
        for ev in p.events:
            if ev.kind == "set" and ev[1] == "data" and "user_items" in Q.params_of(ev[0]):
                fresh = M.ident(ev[2]).op in ("alloc", "call") and M.ident(ev[2]).a[0] in ("numpy.ones_like", "numpy.ones", "numpy.full", "numpy.full_like")
            elif ev.kind == "mut" and ev[1] == ".eliminate_zeros" and "user_items" in Q.params_of(ev[0]) and not fresh:
                ctx.violation("subset", construct + ":zeros", "likes stored with value zero are dropped from the exclusion", ev.where, steps)
    elif "items" in Q.params_of(v) and c.op != "sub":
        ctx.violation("subset", construct + ":untranslated", "likes are translated to subset positions but all items are ranked", where(f), steps)


def compared(p, t):
    """how the ids found by a binary search t are compared with the ids looked for"""
    hay, needle = M.ident(t.a[1][0]), M.ident(t.a[1][1])
    out = set()
    for ev in p.events:
        if ev.kind in ("enter", "exit"):
            continue
        for x in flat(ev.d):
            for y in walk(x):
                if y.op != "cmp":
                    continue
                for l, r, op in ((y.a[1], y.a[2], y.a[0]), (y.a[2], y.a[1], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(y.a[0], y.a[0]))):
                    if l.op == "sub" and M.ident(l.a[0]) is hay and t in set(walk(l.a[1])) and M.ident(r) is needle:
                        out.add(op)
    return out


def direct(p, t):
    """the positions are used without stepping back by one"""
    for ev in p.events:
        if ev.kind in ("enter", "exit"):
            continue
        for x in flat(ev.d):
            for y in walk(x):
                if y.op == "bin" and y.a[0] == "-" and t in set(walk(y.a[1])) and is_const(y.a[2]):
                    return False
    return True


def v_items(p, v):
    """does anything stored into the filter matrix depend on the subset?"""
    b = base(v)
    for ev in p.events:
        if ev.kind in ("mut", "set"):
            vals = [x for x in ev.d if isinstance(x, T)]
            if any("items" in Q.params_of(x) for x in vals) and any("user_items" in Q.params_of(x) for x in vals):
                return True
    return "items" in Q.params_of(b)


def base(t):
    t = M.ident(t)
    while t.op in ("upd", "inpl", "cast"):
        t = M.ident(t.a[-1] if t.op == "cast" else t.a[0])
    return t


def terms_of(p, name):
    """every use of a call in the events of the path"""
    seen = set()
    for ev in p.events:
        if ev.kind in ("enter", "exit"):
            continue
        for x in flat(ev.d):
            for t in walk(x):
                if t.op in ("call", "alloc") and t.a[0] == name and t not in seen:
                    seen.add(t)
                    yield t, ev


def is_sorted(b):
    """sorted in place before, or a sorting call"""
    for _ in range(8):
        if b.op in ("call", "alloc") and b.a[0] in ("numpy.sort", "numpy.unique", "builtins.sorted", "numpy.union1d"):
            return True
        if b.op == "inpl" and "sort" in str(b.a[1]):
            return True
        if b.op in ("call", "alloc") and b.a[0] in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray") and b.a[1]:
            b = b.a[1][0]
        elif b.op in ("inpl", "upd") or b.op == "meth" and b.a[1] in ("astype", "copy"):
            b = b.a[0]
        else:
            return False
    return False


def own_masks(ctx, construct, f, p, a):
    """a mask over ids is computed from the very ids it is applied to"""
    for n, o in enumerate(a.ops):
        if o[0] != "sel":
            continue
        m = R.membership(o[1])
        if m is None:
            continue
        ctx.obligation("own-row", construct)
        dup = R.unchecked(o[1])
        if dup is not None:
            ctx.violation("listed", construct + ":duplicates", "the mask is computed as if %s held no id twice: ids after a repeated one are not removed" % str(dup)[:60],
                          where(f), api.path_steps(p.events))
        k = R.chain(m[0])
        if not isinstance(k, R.Chain) or k.source is not a.source:
            continue
        if k.comp == "scores":
            ctx.violation("own-row", construct + ":scores", "tests the scores for membership in the exclusion list", where(f), api.path_steps(p.events))
            continue
        mine = [x for x in a.ops[:n] if x[0] in ("sel", "row", "append", "prepend", "each")]
        theirs = [x for x in k.ops if x[0] in ("sel", "row", "append", "prepend", "each")]
        if mine != theirs:
            ctx.violation("own-row", construct + ":mask", "the mask is computed from other rows or positions than it is applied to", where(f),
                          api.path_steps(p.events))


# ---------------------------------------------------------------- kernels
def kernel(ctx):
    f = native.topk_func(ctx.proj)
    if f is None:
        ctx.note("topk not found")
        return
    e, paths = native.run(ctx, f)
    fq, fi, q = mk("param", "filter_query_items"), mk("param", "filter_items"), mk("param", f.params[1])
    n = 0
    for p in paths:
        sel = [ev for ev in p.events if ev.kind == "call" and isinstance(ev[0], str) and ev[0].rsplit(".", 1)[-1] == "select" and ev[1][0]]
        if p.kind != "ret" or not sel:
            continue
        for ev in sel:
            n += 1
            batch = ev[1][0][0]
            ctx.obligation("kernel-mask", f.qual)
            masked(ctx, f, e, p, ev, batch, fq, fi, q)
    if n == 0:
        ctx.note("no call to select understood in topk")


def layers(t):
    """stores applied to the score block: (index, value) outermost last"""
    out = []
    while t.op in ("addr", "sub", "upd", "inpl", "cast", "bin"):
        if t.op == "upd":
            out.append((t.a[1], t.a[2]))
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        elif t.op == "bin":
            t = t.a[1]
        elif t.op == "sub":
            if t.a[1].op == "tuple" and all(is_const(x) for x in t.a[1].a[0]):
                t = t.a[0]
            else:
                break
        else:
            t = t.a[0]
    return out[::-1], t


def query_slice(t):
    for x in walk(t):
        if x.op == "sub" and x.a[1].op == "slice" and x.a[1].a[1] is not NONE:
            return x.a[1].a[0], x.a[1].a[1]
    return None


def masked(ctx, f, e, p, ev, batch, fq, fi, q):
    steps = api.path_steps(p.events)
    ls, scores = layers(batch)
    given = lambda t: e.decide(mk("isnone", t), p.st) is not True      # noqa: E731
    if given(fi):
        hits = [(i, v) for i, v in ls if fi in set(walk(i))]
        if not hits:
            if any(fi in set(walk(x)) for x in walk(batch)):
                ctx.saw("not_understood", "topk filter_items")
            else:
                ctx.violation("kernel-mask", f.qual + ":filter_items", "scores are selected without masking the excluded items", ev.where, steps)
        for i, v in hits:
            idx = i.a[0] if i.op == "tuple" else (i,)
            if not lowest(v):
                ctx.violation("kernel-mask", f.qual + ":value", "excluded items get score %s" % v, ev.where, steps)
            if len(idx) == 2:
                if idx[0].op == "slice" and not all(x is NONE for x in idx[0].a):
                    ctx.violation("kernel-mask", f.qual + ":rows", "the exclusion list is applied to rows %s only" % idx[0], ev.where, steps)
                elif is_const(idx[0]):
                    ctx.violation("kernel-mask", f.qual + ":rows", "the exclusion list is applied to row %s only" % idx[0], ev.where, steps)
                elif native.single_lv(idx[0]) is not None:
                    rows(ctx, f, p, ev, batch, idx[0], "filter_items", steps)
                if Q.unwrap(idx[1]) is not fi and idx[1].op == "sub" and idx[1].a[1].op == "slice":
                    ctx.violation("kernel-mask", f.qual + ":part", "only part of the exclusion list is applied: %s" % idx[1], ev.where, steps)
    if given(fq):
        hits = [(i, v) for i, v in ls if fq in set(walk(i))]
        if not hits:
            if fq in set(walk(batch)):
                ctx.saw("not_understood", "topk filter_query_items")
            else:
                ctx.violation("kernel-mask", f.qual + ":filter_query_items", "scores are selected without masking each row's liked items", ev.where, steps)
        for i, v in hits:
            if not lowest(v):
                ctx.violation("kernel-mask", f.qual + ":value", "excluded items get score %s" % v, ev.where, steps)
            idx = i.a[0] if i.op == "tuple" else (i,)
            if len(idx) != 2:
                ctx.saw("not_understood", "topk filter_query_items index")
                continue
            r, cols = idx
            s = query_slice(scores) or query_slice(batch)
            row = filter_row(cols, fq)
            if row is None or s is None:
                ctx.saw("not_understood", "topk filter_query_items index %s" % str(cols)[:60])
                continue
            part = valued(cols, fq)
            if part is not None:
                ctx.violation("kernel-mask", f.qual + ":valued", "only the likes with %s are masked" % str(part)[:60], ev.where, steps)
            if native.minus(native.linear(row), native.plus(native.linear(r), native.linear(s[0]))):
                ctx.violation("kernel-mask", f.qual + ":row", "row %s of the batch starting at %s is masked with the likes of row %s" % (r, s[0], row),
                              ev.where, steps)
            rows(ctx, f, p, ev, batch, r, "filter_query_items", steps)


def valued(cols, m):
    """a condition on the stored values deciding which of the columns are taken"""
    cols = M.ident(cols)
    if cols.op == "sub" and M.ident(cols.a[0]).op == "attr" and M.ident(cols.a[0]).a[1] == "indices":
        c = M.ident(cols.a[1])
        if c.op == "cmp" and any(x.op == "attr" and x.a[1] == "data" and m in set(walk(x)) for x in walk(c)):
            return c
    return None


def filter_row(cols, fq):
    """j when cols are the columns of fq[j]"""
    for x in walk(cols):
        if x.op == "sub" and Q.unwrap(x.a[0]) is fq:
            return x.a[1]
        # indices[indptr[j]:indptr[j + 1]]
        if x.op == "sub" and x.a[1].op == "slice" and x.a[0].op == "attr" and Q.unwrap(x.a[0].a[0]) is fq:
            lo, hi = x.a[1].a[0], x.a[1].a[1]
            if lo.op == "sub" and hi.op == "sub":
                d = native.diff(hi.a[1], lo.a[1])
                if d == {1: 1}:
                    return lo.a[1]
    return None


def rows(ctx, f, p, ev, batch, r, what, steps):
    """r runs over every row of the block"""
    x = native.extent(r)
    s = query_slice(batch)
    if is_const(r):
        ctx.violation("kernel-mask", f.qual + ":rows", "%s is applied to row %s only" % (what, r), ev.where, steps)
        return
    if x is None or s is None:
        return
    if x[0] != {}:
        if all(k == 1 for k in x[0]):
            ctx.violation("kernel-mask", f.qual + ":rows", "%s is not applied to the first rows of a batch" % what, ev.where, steps)
        return
    want = native.minus(native.linear(s[1]), native.linear(s[0]))
    d = native.minus(x[1], want)
    for k, v in d.items():
        # min(end, rows of the query - 1): the last row is left out
        if isinstance(k, T) and k.op in ("call", "alloc") and k.a[0] in ("builtins.min", "min") and v == 1:
            for y in k.a[1]:
                ly = native.linear(y)
                if len(ly) == 2 and ly.get(1, 0) < 0 and any(isinstance(z, T) and z.op == "sub" and z.a[0].op == "attr" and z.a[0].a[1] == "shape" and w == 1 for z, w in ly.items()):
                    ctx.violation("kernel-mask", f.qual + ":rows", "%s is not applied to the last rows" % what, ev.where, steps)
                    return
    if not d or any(k != 1 and (k.op == "sub" and k.a[0].op == "attr" and k.a[0].a[1] == "shape" or k.op == "call" and k.a[0] == "builtins.len") for k in d):
        return
    if all(k == 1 for k in d) or not any(k != 1 and k.op not in ("param", "lv") for k in d):
        ctx.violation("kernel-mask", f.qual + ":rows", "%s is not applied to exactly the rows of a batch" % what, ev.where, steps)


def scorer(ctx):
    c = native.scorer_class(ctx.proj)
    f = c.methods.get("recommend") if c else None
    if f is None:
        ctx.note("scorer not found")
        return
    e, paths = native.run(ctx, f, c)
    own = mk("param", "remove_own_likes")
    ui, up = mk("param", f.params[2]), mk("param", f.params[1])
    for p in paths:
        if p.kind != "ret" or e.decide(mk("truth", own), p.st) is False:
            continue
        ctx.obligation("scorer-mask", f.qual)
        steps = api.path_steps(p.events)
        evs = p.events
        adds = [i for i, ev in enumerate(evs) if ev.kind == "call" and ev[0] == "method:add"]
        each = [i for i, ev in enumerate(evs) if ev.kind == "call" and ev[0] in ("method:foreach",)]
        stores = [i for i, ev in enumerate(evs) if ev.kind == "mut" and ev[1] == "setitem" and "sums" in str(ev[0]) and isinstance(ev[2], T)
                  and ui in set(walk(ev[2]))]
        if not each or not adds:
            ctx.saw("not_understood", f.qual)
            continue
        if not stores:
            if any(ev.kind == "call" and ui in {y for x in flat(ev[1]) for y in walk(x)} and i > max(adds) and i < min(each) for i, ev in enumerate(evs)):
                ctx.saw("not_understood", f.qual + ": likes cleared by a call")
                continue
            ctx.violation("scorer-mask", f.qual, "the scores of liked items are not cleared", where(f), steps)
            continue
        for i in stores:
            ev = evs[i]
            if i < max(adds):
                ctx.violation("scorer-mask", f.qual + ":before", "liked items are cleared before all scores were accumulated", ev.where, steps)
            if i > min(each):
                ctx.violation("scorer-mask", f.qual + ":after", "liked items are cleared after the results were selected", ev.where, steps)
            v = ev[3]
            if is_const(v) and isinstance(cval(v), (int, float)) and cval(v) > 0:
                ctx.violation("scorer-mask", f.qual + ":value", "liked items get score %s" % cval(v), ev.where, steps)
            idx = ev[2]
            if idx.op == "sub" and idx.a[0] is ui:
                x = native.extent(idx.a[1])
                if x is not None:
                    lo = native.linear(mk("sub", up, mk("const", "int", 0)))
                    hi = native.linear(mk("sub", up, mk("const", "int", 1)))
                    if definite(native.minus(x[0], lo)) or definite(native.minus(x[1], hi)):
                        ctx.violation("scorer-mask", f.qual + ":range", "not every liked item of the row is cleared", ev.where, steps)


def definite(d):
    return bool(d) and all(k == 1 or k.op in ("sub", "param") for k in d)


def flat(x):
    if isinstance(x, T):
        return [x]
    out = []
    if isinstance(x, (tuple, list)):
        for y in x:
            out += flat(y)
    return out


def helper(ctx):
    pass


__all__ = ["check", "alternatives", "conditional"]
