"""C16: each tested user is scored once, from its own recommendations and held-out items, with nothing carried over from other users."""
from .. import api
from .. import model as M
from .. import native as NV
from ..project import AnalysisBroken
from ..terms import NONE, T, const, cval, is_const, kids, mk, rewrite, walk
from .c07 import where

MINIMUM = {"metrics": 1}
RANKING = "implicit.evaluation.ranking_metrics_at_k"
SHORTCUTS = {"implicit.evaluation.precision_at_k": "precision", "implicit.evaluation.mean_average_precision_at_k": "map",
             "implicit.evaluation.ndcg_at_k": "ndcg", "implicit.evaluation.AUC_at_k": "auc"}
TRAIN, TEST = mk("param", "train_user_items"), mk("param", "test_user_items")
K = mk("param", "K")
EMPTY = mk("glob", "empty set")


def check(ctx):
    proj = ctx.proj
    f = proj.find_func(RANKING)
    if f is None:
        raise AnalysisBroken(RANKING + " not found")
    ctx.rule("users", "the users scored are those with at least one held-out item, each batch starts where the last one ended and the batches cover all of them")
    ctx.rule("request", "recommendations are requested for the users of the batch with those users' rows of the training items, excluding them, and K results")
    ctx.rule("own-items", "the held-out items compared with a row of recommendations are those of the user that row belongs to, from the test matrix")
    ctx.rule("isolated", "what a user adds to every metric is the same function of that user's data, whatever user came before")
    ctx.rule("positions", "only positions inside the returned recommendations are read, and at most K")
    ctx.rule("keys", "each reported metric is computed from its own accumulators")
    ctx.rule("shortcut", "a metric shortcut returns its own metric and passes all of the caller's settings on")
    metrics(ctx, f)
    for q, key in SHORTCUTS.items():
        g = proj.find_func(q)
        if g is None:
            raise AnalysisBroken(q + " not found")
        shortcut(ctx, g, key)


# -- shortcuts

def shortcut(ctx, g, key):
    ctx.saw("shortcuts", g.qual)
    e, paths = api.run(ctx, g, None, opaque={RANKING}, inline_kernels=True)
    for p in paths:
        if p.kind != "ret":
            continue
        ctx.obligation("shortcut", g.qual)
        calls = [ev for ev in p.events if ev.kind == "call" and ev.d[0] == RANKING]
        steps = api.path_steps(p.events)
        v = M.ident(p.value)
        if not calls:
            ctx.saw("not_understood", g.qual + " does not call " + RANKING)
            continue
        if v.op == "sub" and is_const(v.a[1]) and v.a[0] is calls[-1].d[2]:
            if cval(v.a[1]) != key:
                ctx.violation("shortcut", g.qual + ":key", "returns %r instead of %r" % (cval(v.a[1]), key), where(g), steps)
        elif v.op == "meth" and v.a[1] == "get" and v.a[2] and is_const(v.a[2][0]):
            if cval(v.a[2][0]) != key:
                ctx.violation("shortcut", g.qual + ":key", "returns %r instead of %r" % (cval(v.a[2][0]), key), where(g), steps)
        else:
            ctx.saw("not_understood", "%s returns %s" % (g.qual, str(v)[:80]))
        b = dict(calls[-1].d[1])
        for a in g.params:
            if a not in b:
                continue
            got = b[a]
            while got.op == "cast":
                got = got.a[-1]
            if got is not mk("param", a):
                ctx.violation("shortcut", "%s:%s" % (g.qual, a), "passes %s as %s" % (str(got)[:60], a), calls[-1].where, steps)


# -- the metrics

def root(t):
    """matrix behind conversions"""
    t = M.ident(t)
    while t.op == "meth" and t.a[1] in ("tocsr", "copy", "sorted_indices", "astype") or t.op in ("call", "alloc") and t.a[0] in ("scipy.sparse.csr_matrix", "implicit.utils.check_csr") and t.a[1]:
        t = M.ident(t.a[0] if t.op == "meth" else t.a[1][0])
    return t


def bare(t):
    while True:
        t = M.ident(t)
        if t.op in ("call", "alloc") and t.a[0] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray") and t.a[1]:
            t = t.a[1][0]
        elif t.op == "meth" and t.a[1] in ("astype", "copy"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        else:
            return t


def recommends(p):
    return [ev for ev in p.events if ev.kind == "call" and ev.d[0] == "method:recommend" and M.ident(ev.d[1][0]).op == "param"]


def metrics(ctx, f):
    ctx.saw("metrics", f.qual)
    e, paths = NV.run(ctx, f)
    loop = None
    for p in paths:
        if p.kind != "ret":
            continue
        steps = api.path_steps(p.events)
        for ev in recommends(p):
            request(ctx, f, ev, p, steps)
        loop = reads(ctx, f, p, steps) or loop
    e2, two = NV.run(ctx, f, loops=2)
    for p in two:
        if p.kind == "ret":
            batches(ctx, f, p, api.path_steps(p.events))
    if loop is None:
        ctx.saw("not_understood", f.qual + ": no loop over the users of a batch")
        return
    node = next((n for i, n in e._sites.values() if i == loop), None)
    e3, three = NV.run(ctx, f, unroll=lambda s, d: 2 if s is node else 1)
    isolated(ctx, f, [p for p in three if p.kind == "ret"], e3, node)


def users_of(t):
    """(array of candidate users, slice) of the user ids of a batch"""
    t = bare(t)
    if t.op == "sub" and t.a[1].op == "slice":
        return bare(t.a[0]), t.a[1]
    return t, None


def request(ctx, f, ev, p, steps):
    name = f.qual
    recv, args, kws = ev.d[1]
    b = {}
    for a, v in zip(("userid", "user_items", "N", "filter_already_liked_items", "filter_items", "recalculate_user", "items"), args):
        b[a] = v
    b.update(dict(kws))
    ctx.obligation("request", name)
    u, ui, n = b.get("userid"), b.get("user_items"), b.get("N")
    if u is None or ui is None or n is None:
        ctx.violation("request", name + ":missing", "recommendations are requested without %s" % ("users" if u is None else "training items" if ui is None else "a count"), ev.where, steps)
        return
    nn = bare(n)
    if nn is not K:
        d = NV.diff(nn, K)
        if is_const(nn) or set(d) == {1} and d[1] < 0:
            ctx.violation("request", name + ":N", "requests %s recommendations instead of K" % nn, ev.where, steps)
        else:
            ctx.saw("not_understood", "%s: N=%s" % (name, str(nn)[:60]))
    fl = b.get("filter_already_liked_items")
    if fl is not None and (is_const(fl) and not cval(fl) or fl.op in ("cmp", "bool") or fl.op == "un" and fl.a[0] == "not"):
        ctx.violation("request", name + ":filter", "items of the training set are not excluded from the recommendations", ev.where, steps)
    x = M.ident(ui)
    rows = None
    while x.op == "meth" and x.a[1] in ("tocsr", "copy", "astype", "sorted_indices"):
        x = M.ident(x.a[0])
    if x.op == "sub":
        x, rows = x.a[0], bare(x.a[1])
    if root(x) is TEST:
        ctx.violation("request", name + ":matrix", "the held-out items are excluded from the recommendations instead of the training items", ev.where, steps)
    elif root(x) is not TRAIN:
        ctx.saw("not_understood", "%s: user_items=%s" % (name, str(ui)[:60]))
    elif rows is None:
        ctx.violation("request", name + ":rows", "the whole training matrix is given for a batch of users", ev.where, steps)
    elif rows is not bare(u):
        if rows.op == "slice" or rows.op == "sub" or rows.op == "alloc" or rows.op == "call":
            ctx.violation("request", name + ":rows", "the rows of training items are not those of the users asked for", ev.where, steps)
        else:
            ctx.saw("not_understood", "%s: rows %s" % (name, str(rows)[:60]))
    arr, sl = users_of(u)
    tested(ctx, f, arr, ev, steps)


def tested(ctx, f, arr, ev, steps):
    """arr: arange(number of test users)[number of held-out items > 0]"""
    name = f.qual
    ctx.obligation("users", name)
    cond = None
    if arr.op == "sub":
        base, cond = bare(arr.a[0]), M.ident(arr.a[1])
    elif arr.op in ("call", "alloc") and arr.a[0] == "numpy.flatnonzero" and arr.a[1]:
        base, cond = None, M.ident(arr.a[1][0])
    elif arr.op == "sub" and is_const(arr.a[1]):
        base = None
    else:
        base = arr
    if base is not None and base.op == "sub" and is_const(base.a[1]):
        base = None
    if arr.op == "sub" and is_const(arr.a[1]) and bare(arr.a[0]).op in ("call", "alloc") and bare(arr.a[0]).a[0] in ("numpy.nonzero", "numpy.where"):
        base, cond = None, M.ident(bare(arr.a[0]).a[1][0])
    if base is not None and not (base.op in ("call", "alloc") and base.a[0] == "numpy.arange" and base.a[1]):
        ctx.saw("not_understood", "%s: users %s" % (name, str(arr)[:80]))
        return
    if base is not None:
        n = M.ident(base.a[1][-1] if len(base.a[1]) > 1 and False else base.a[1][0])
        if len(base.a[1]) > 1:
            if is_const(base.a[1][0]) and cval(base.a[1][0]) != 0:
                ctx.violation("users", name + ":range", "users before %s are never scored" % cval(base.a[1][0]), ev.where, steps)
                return
            n = M.ident(base.a[1][1])
        n = bare(n)
        if n.op == "sub" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1]):
            if cval(n.a[1]) == 1:
                ctx.violation("users", name + ":range", "users are counted by the number of items", ev.where, steps)
                return
        else:
            d = NV.linear(n)
            if any(k != 1 and k.op == "sub" for k in d) and d.get(1, 0) != 0:
                ctx.violation("users", name + ":range", "users are taken from range(%s)" % str(n)[:60], ev.where, steps)
                return
    if cond is None:
        ctx.violation("users", name + ":filter", "users without held-out items are scored too", ev.where, steps)
        return
    mats = {root(x.a[0]) for x in walk(cond) if x.op == "attr" and x.a[1] in ("indptr", "indices")} | {root(x.a[0]) for x in walk(cond) if x.op == "meth" and x.a[1] in ("getnnz", "sum")}
    if TRAIN in mats:
        ctx.violation("users", name + ":filter", "the users scored are chosen by their training items", ev.where, steps)
        return
    if TEST not in mats:
        ctx.saw("not_understood", "%s: users where %s" % (name, str(cond)[:80]))
        return
    if cond.op == "cmp":
        op, a, b = cond.a
        if is_const(a):
            op, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a
        if is_const(b) and isinstance(cval(b), (int, float)):
            v = cval(b)
            ok = op == ">" and 0 <= v < 1 or op == ">=" and 0 < v <= 1 or op == "!=" and v == 0
            if not ok:
                ctx.violation("users", name + ":filter", "the users scored are those with %s %s held-out items" % (op, v), ev.where, steps)
            return
    elif cond.op in ("call", "alloc", "meth"):
        return
    ctx.saw("not_understood", "%s: users where %s" % (name, str(cond)[:80]))


def advanced(t):
    """the length of a full slice x[lo:hi] is hi - lo"""
    def g(x):
        if x.op == "call" and x.a[0] == "builtins.len" and x.a[1]:
            s = bare(x.a[1][0])
            if s.op == "sub" and s.a[1].op == "slice" and s.a[1].a[1] is not NONE and s.a[1].a[2] is NONE:
                lo = s.a[1].a[0]
                return s.a[1].a[1] if lo is NONE else mk("bin", "-", s.a[1].a[1], lo)
        return x
    return rewrite(t, g)


def batches(ctx, f, p, steps):
    """consecutive batches: the slices of the users touch"""
    name = f.qual
    rs = recommends(p)
    if not rs:
        return
    sl = []
    for ev in rs:
        recv, args, kws = ev.d[1]
        u = args[0] if args else dict(kws).get("userid")
        if u is None:
            return
        arr, s = users_of(u)
        if s is None:
            if bare(u).op == "sub" or len(rs) > 1:
                ctx.saw("not_understood", "%s: batch %s" % (name, str(u)[:60]))
            return
        sl.append((arr, s, ev))
    ctx.obligation("users", name + ":batches")
    arr, s, ev = sl[0]
    lo, hi, st = s.a
    if st is not NONE and not (is_const(st) and cval(st) == 1):
        ctx.violation("users", name + ":batches", "only every %s-th user of a batch is scored" % st, ev.where, steps)
        return
    lv = next((x for x in walk(lo) if x.op == "lv"), None) if isinstance(lo, T) else None
    if lv is not None and lo is lv:
        # for start in range(0, len(users), size)
        size = NV.diff(hi, lo) if hi is not NONE else None
        step = NV.linear(lv.a[4])
        if size is None or size != step:
            ctx.violation("users", name + ":batches", "batches of %s users start every %s users" % (size, step), ev.where, steps)
        if not (is_const(lv.a[2]) and cval(lv.a[2]) == 0):
            ctx.violation("users", name + ":start", "the first batch starts at user %s" % lv.a[2], ev.where, steps)
        end = bare(lv.a[3])
        if end.op in ("call", "alloc") and end.a[0] == "builtins.len" and end.a[1] and bare(end.a[1][0]) is not arr:
            ctx.violation("users", name + ":end", "batches are taken up to the length of another array", ev.where, steps)
        return
    if lo is not NONE and not (is_const(lo) and cval(lo) == 0):
        ctx.violation("users", name + ":start", "the first batch starts at user %s" % str(lo)[:40], ev.where, steps)
        return
    for (a1, s1, e1), (a2, s2, e2) in zip(sl, sl[1:]):
        if a1 is not a2 or s1 is s2 and a1 is a2:
            if s1 is s2:
                ctx.violation("users", name + ":batches", "the same users are scored again", e2.where, steps)
            return
        if s1.a[1] is NONE:
            return
        d = NV.diff(advanced(s2.a[0]), s1.a[1])
        if set(d) == {1}:
            ctx.violation("users", name + ":batches", "a batch starts %s users %s the end of the one before" % (abs(d[1]), "after" if d[1] > 0 else "before"), e2.where, steps)
        elif d:
            ctx.saw("not_understood", "%s: batches %s, %s" % (name, s1, s2))
    # left only when all users were scored
    last = sl[-1]
    hi = last[1].a[1]
    slack = []
    for k, v in p.st.facts.items():
        if k.op == "cmp" and k.a[0] in ("<", "<=", ">", ">="):
            op, a, b = k.a
            if not v:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            if op in (">", ">="):
                op, a, b = {">": "<", ">=": "<="}[op], b, a
            # a <= b (- 1)
            la, lb = bare(a), NV.diff(b, hi)
            if la.op in ("call", "alloc") and la.a[0] == "builtins.len" and la.a[1] and bare(la.a[1][0]) is last[0] and set(lb) <= {1}:
                slack.append(lb.get(1, 0) - (1 if op == "<" else 0))
    if slack and min(slack) > 0:
        ctx.violation("users", name + ":end", "scoring stops although up to %s users are left" % min(slack), last[2].where, steps)
        return
    for k, v in p.st.facts.items():
        if v is False and k.op == "cmp" and k.a[0] == "<":
            a, b = bare(k.a[1]), bare(k.a[2])
            if b.op in ("call", "alloc") and b.a[0] == "builtins.len" and b.a[1] and bare(b.a[1][0]) is last[0]:
                d = NV.diff(k.a[1], hi)
                if set(d) == {1} and d[1] > 0:
                    ctx.violation("users", name + ":end", "scoring stops although up to %s users are left" % d[1], last[2].where, steps)
            elif NV.diff(k.a[1], hi) == {} and b.op == "bin":
                d = NV.diff(k.a[2], mk("call", "builtins.len", (last[0],), ()))
                if set(d) == {1} and d[1] < 0:
                    ctx.violation("users", name + ":end", "scoring stops although up to %s users are left" % -d[1], last[2].where, steps)


def is_ids(t, p):
    """the ids returned by the model"""
    t = bare(t)
    if t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) == 0:
        r = M.ident(t.a[0])
        return any(r is ev.d[2] for ev in recommends(p))
    return False


def is_scores(t, p):
    t = bare(t)
    return t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) == 1 and any(M.ident(t.a[0]) is ev.d[2] for ev in recommends(p))


def terms(p):
    seen = set()
    v = p.st.heap.get((M.ident(p.value), "{}")) if isinstance(p.value, T) else None
    src = list(p.st.facts) + ([v] if v is not None else []) + ([p.value] if isinstance(p.value, T) else [])
    for ev in p.events:
        st = list(ev.d)
        while st:
            x = st.pop()
            if isinstance(x, T):
                src.append(x)
            elif isinstance(x, tuple):
                st.extend(x)
    for x in src:
        yield from walk(x, seen)


def reads(ctx, f, p, steps):
    """ids[row, position] and held-out items[...]; returns the loop over the users"""
    name = f.qual
    loop = None
    rows = set()
    items = []
    for t in terms(p):
        if t.op != "sub":
            continue
        r = pos = None
        if is_ids(t.a[0], p) and t.a[1].op == "tuple" and len(t.a[1].a[0]) == 2:
            r, pos = t.a[1].a[0]
            src = bare(t.a[0])
        elif t.a[0].op == "sub" and is_ids(t.a[0].a[0], p) and t.a[0].a[1].op != "slice" and t.a[1].op != "slice":
            r, pos = t.a[0].a[1], t.a[1]
            src = bare(t.a[0].a[0])
        if r is not None:
            position(ctx, f, pos, src, p, steps)
            rows.add(bare(r))
            continue
        if is_scores(t.a[0], p) and t.a[1].op in ("tuple", "lv") and any(x.op == "meth" and x.a[1] == "find" and t in walk(x) for x in p.st.facts):
            ctx.violation("own-items", name + ":scores", "scores are compared with the held-out items", where(f), steps)
        b = M.ident(t.a[0])
        if b.op == "attr" and b.a[1] == "indices" and root(b.a[0]) in (TRAIN, TEST):
            items.append(t)
    for t in items:
        b = M.ident(t.a[0])
        ctx.obligation("own-items", name)
        if root(b.a[0]) is TRAIN:
            ctx.violation("own-items", name + ":matrix", "recommendations are compared with the training items", where(f), steps)
            continue
        lv = NV.single_lv(t.a[1]) if t.a[1].op != "slice" else None
        if t.a[1].op == "slice":
            lo, hi = t.a[1].a[0], t.a[1].a[1]
        elif lv is not None:
            ex = NV.extent(t.a[1])
            if ex is None:
                continue
            lo, hi = lv.a[2], lv.a[3]
            if NV.minus(ex[0], NV.linear(lo)):
                ctx.violation("own-items", name + ":offset", "held-out items are read at an offset from the user's row", where(f), steps)
                continue
        else:
            continue
        u1, u2 = row_of(lo), row_of(hi)
        for side, x in (("start", lo), ("end", hi)):
            d = NV.linear(x)
            core = [k for k in d if k != 1]
            if d.get(1, 0) and len(core) == 1 and row_of(core[0]) is not None:
                ctx.violation("own-items", name + ":row", "held-out items are taken up to an offset of %s from the %s of the user's row" % (d[1], side), where(f), steps)
        b = bare(hi)
        if u2 is None and b.op in ("call", "alloc") and b.a[0] in ("builtins.min", "numpy.minimum") and any(row_of(x) is not None for x in b.a[1]):
            rest = [x for x in b.a[1] if row_of(x) is None]
            if any(K in set(walk(x)) or any(is_const(k) and isinstance(cval(k), int) and cval(k) > 1 for k in walk(x)) for x in rest):
                ctx.violation("own-items", name + ":part", "held-out items after position %s are ignored" % str(rest[0])[:80], where(f), steps)
                continue
        if u1 is None or u2 is None:
            ctx.saw("not_understood", "%s: held-out items %s" % (name, str(t)[:80]))
            continue
        if root(u1[0]) is not TEST or root(u2[0]) is not TEST:
            ctx.violation("own-items", name + ":indptr", "rows of held-out items are found with the row bounds of another matrix", where(f), steps)
            continue
        d = NV.diff(u2[1], u1[1])
        if d != {1: 1}:
            ctx.violation("own-items", name + ":row", "held-out items are taken from row %s up to the start of row %s" % (str(u1[1])[-60:], str(u2[1])[-60:]), where(f), steps)
            continue
        u = bare(u1[1])
        for r in rows:
            own(ctx, f, name, r, u, p, steps)
            if r.op == "lv":
                loop = r.a[0]
    for t in terms(p):
        if t.op == "inpl" and t.a[1] in (".insert", ".add"):
            for x in flat([y.a[2] if y.op == "meth" else y for y in flat(t.a[2:])]):
                if x.op == "lv" and isinstance(x.a[2], T) and row_of(x.a[2]) is not None:
                    ctx.violation("own-items", name + ":positions", "positions of held-out entries are collected instead of their items", where(f), steps)
    for r in rows:
        if r.op == "lv":
            whole(ctx, f, r, p, steps)
    if not rows:
        ctx.saw("not_understood", name + ": recommendations are not read one by one")
    return loop


def flat(v):
    for x in v:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def whole(ctx, f, r, p, steps):
    """the loop over the users of a batch visits all of them"""
    name = f.qual
    batch = None
    for ev in recommends(p):
        recv, args, kws = ev.d[1]
        batch = args[0] if args else dict(kws).get("userid")
        res = ev.d[2]
    if batch is None:
        return
    ctx.obligation("users", name + ":whole batch")
    if is_const(r.a[2]) and cval(r.a[2]) != 0:
        ctx.violation("users", name + ":first", "the first %s users of a batch are not scored" % cval(r.a[2]), where(f), steps)
    if is_const(r.a[4]) and cval(r.a[4]) not in (1, -1):
        ctx.violation("users", name + ":stride", "only every %s-th user of a batch is scored" % cval(r.a[4]), where(f), steps)
    d = NV.linear(r.a[3])
    core = [k for k in d if k != 1]
    if len(core) != 1 or d[core[0]] != 1:
        return
    c = bare(core[0])
    if c.op in ("call", "alloc") and c.a[0] == "builtins.len" and c.a[1]:
        of = c.a[1][0]
    elif c.op == "sub" and c.a[0].op == "attr" and c.a[0].a[1] == "shape" and is_const(c.a[1]):
        of = c.a[0].a[0]
        if is_ids(of, p) and cval(c.a[1]) == 1:
            ctx.violation("users", name + ":whole", "as many users as recommendations per user are scored", where(f), steps)
            return
    else:
        return
    if bare(of) is not bare(batch) and not is_ids(of, p):
        return
    if d.get(1, 0):
        ctx.violation("users", name + ":whole", "the users scored in a batch end at its length %+d" % d[1], where(f), steps)


def row_of(t):
    t = bare(t)
    if t.op == "sub" and M.ident(t.a[0]).op == "attr" and M.ident(t.a[0]).a[1] == "indptr":
        return M.ident(t.a[0]).a[0], t.a[1]
    return None


def own(ctx, f, name, r, u, p, steps):
    """row r of the recommendations belongs to user batch[r]"""
    batch = None
    for ev in recommends(p):
        recv, args, kws = ev.d[1]
        batch = args[0] if args else dict(kws).get("userid")
    if batch is None:
        return
    if u.op == "sub" and bare(u.a[0]) is bare(batch):
        if NV.diff(u.a[1], r):
            ctx.violation("own-items", name + ":pairing", "row %s of the recommendations is compared with the held-out items of user number %s of the batch" % (r, u.a[1]), where(f), steps)
        return
    if u.op == "elem" and bare(u.a[0]) is bare(batch):
        return
    if u is r or not NV.diff(u, r):
        ctx.violation("own-items", name + ":pairing", "positions in the batch are used as user ids when looking up held-out items", where(f), steps)
        return
    arr, sl = users_of(batch)
    if u.op == "sub" and bare(u.a[0]) is arr:
        lo = sl.a[0] if sl is not None and sl.a[0] is not NONE else const(0)
        d = NV.minus(NV.diff(u.a[1], r), NV.linear(lo))
        if d and lo is not None:
            ctx.violation("own-items", name + ":pairing", "row %s of the recommendations is compared with the held-out items of another user" % r, where(f), steps)
        return
    if not any(x.op in ("sub", "elem") and bare(x.a[0]) in (arr, bare(batch)) for x in outside(u)) and any(x is r for x in NV.linear(u)):
        ctx.violation("own-items", name + ":pairing", "held-out items are looked up for the user %s instead of the user asked for" % str(u)[:60], where(f), steps)
        return
    ctx.saw("not_understood", "%s: user %s for row %s" % (name, str(u)[:60], r))


def position(ctx, f, pos, ids, p, steps):
    name = f.qual
    ctx.obligation("positions", name)
    ex = NV.extent(pos)
    if ex is None:
        ctx.saw("not_understood", "%s: position %s" % (name, str(pos)[:60]))
        return
    lo, hi = ex
    if lo:
        if set(lo) == {1}:
            ctx.violation("positions", name + ":first", "the first position read is %s" % lo[1], where(f), steps)
        return
    lv = NV.single_lv(pos)
    end = bare(lv.a[3])
    ok_len, ok_k = bounded(end, ids, p)
    if NV.minus(hi, NV.linear(lv.a[3])):
        ctx.violation("positions", name + ":offset", "positions are read at an offset", where(f), steps)
        return
    if ok_len is False:
        ctx.violation("positions", name, "positions up to %s are read although fewer items may have been recommended" % str(end)[:60], where(f), steps)
    elif ok_len is None:
        ctx.saw("not_understood", "%s: positions up to %s" % (name, str(end)[:60]))
    if ok_len and ok_k is False:
        ctx.violation("positions", name + ":K", "not all of the first K recommendations are read: %s" % str(end)[:60], where(f), steps)


def bounded(end, ids, p):
    """(bounded by the number of recommendations, reads all of the first K)"""
    end = bare(end)
    if end.op == "sub" and end.a[0].op == "attr" and end.a[0].a[1] == "shape" and bare(end.a[0].a[0]) is ids:
        return (True, True) if is_const(end.a[1]) and cval(end.a[1]) == 1 else (False, None)
    if end.op in ("call", "alloc") and end.a[0] == "builtins.len" and end.a[1]:
        x = bare(end.a[1][0])
        if x.op == "sub" and bare(x.a[0]) is ids:
            return True, True
        if x is ids:
            return False, None
    if end.op in ("call", "alloc") and end.a[0] in ("builtins.min", "libc.math.fmin", "numpy.minimum"):
        rs = [bounded(x, ids, p) for x in end.a[1] if isinstance(x, T)]
        if any(r[0] for r in rs):
            rest = [x for x, r in zip(end.a[1], rs) if not r[0]]
            return True, False if any(is_const(bare(x)) or set(NV.diff(bare(x), K)) == {1} and NV.diff(bare(x), K)[1] < 0 for x in rest) else True
        return (False if all(r[0] is False for r in rs) else None), None
    for k, v in p.st.facts.items():
        if k.op == "cmp" and k.a[0] in ("<", "<=", ">", ">="):
            op, a, b = k.a
            if not v:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            if op in (">", ">="):
                a, b = b, a
            # a <= b
            a, b = bare(a), bare(b)
            if a is end and b is not end and b.op != "bin" and not is_const(b) and b is not K and bounded(b, ids, p)[0]:
                return True, True
    if end is K or is_const(end):
        return False, None
    d = NV.diff(end, K)
    if set(d) <= {1}:
        return False, None
    d = NV.linear(end)
    core = [k for k in d if k != 1]
    if len(core) == 1 and d[core[0]] == 1:
        b = bounded(core[0], ids, p)
        if b[0]:
            c = d.get(1, 0)
            return (False, None) if c > 0 else (True, False if c < 0 else b[1])
    return None, None


# -- nothing carried over between users

def summands(t, out=None, sign=1):
    """flattened sum: (constant, multiset of terms)"""
    if out is None:
        out = [0, {}]
    t = t.a[-1] if t.op == "cast" else t
    if is_const(t) and isinstance(cval(t), (int, float)):
        out[0] += sign * cval(t)
    elif t.op == "bin" and t.a[0] in ("+", "-"):
        summands(t.a[1], out, sign)
        summands(t.a[2], out, sign if t.a[0] == "+" else -sign)
    else:
        out[1][t] = out[1].get(t, 0) + sign
    return out


def fold(t):
    """drop additions of zero and zero quotients"""
    def one(x):
        if x.op == "inpl" and x.a[1] == ".clear":
            return EMPTY
        if x.op == "undef":
            return EMPTY
        if x.op == "bin" and x.a[0] == "+":
            if is_const(x.a[1]) and not isinstance(cval(x.a[1]), str) and cval(x.a[1]) == 0:
                return x.a[2]
            if is_const(x.a[2]) and not isinstance(cval(x.a[2]), str) and cval(x.a[2]) == 0:
                return x.a[1]
        if x.op == "bin" and x.a[0] == "/" and is_const(x.a[1]) and cval(x.a[1]) == 0:
            return const(0)
        if x.op == "bin" and x.a[0] == "*" and any(is_const(y) and cval(y) == 0 and not isinstance(cval(y), bool) for y in x.a[1:]):
            return const(0)
        return x
    return rewrite(t, one)


def rename(t, sid, frm, to):
    return rewrite(t, lambda x: mk("lv", x.a[0], to, *x.a[2:]) if x.op == "lv" and x.a[0] == sid and x.a[1] == frm else x)


def first_or_later(k, sid):
    """truth of a comparison of the loop's own position with a number, None when it is something else"""
    if k.op == "truth":
        k = mk("cmp", "!=", k.a[0], const(0))
    if k.op != "cmp" or k.a[0] not in ("==", "!=", "<", "<=", ">", ">="):
        return None
    v = []
    for x in k.a[1:]:
        x = bare(x)
        if x.op == "lv" and x.a[0] == sid and isinstance(x.a[1], int) and is_const(x.a[2]) and is_const(x.a[4]):
            x = const(cval(x.a[2]) + x.a[1] * cval(x.a[4]))
        if not is_const(x) or not isinstance(cval(x), (int, float)):
            return None
        v.append(cval(x))
    a, b = v
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[k.a[0]]


def isolated(ctx, f, paths, e, node):
    name = f.qual
    sid = next((i for i, n in e._sites.values() if n is node), None)
    if sid is None:
        return
    single, double = {}, []
    for p in paths:
        d = p.st.heap.get((M.ident(p.value), "{}"))
        if d is None or d.op != "dents":
            ctx.saw("not_understood", name + " returns " + str(p.value)[:60])
            continue
        vals = {cval(k): fold(v) for k, v in d.a[0] if is_const(k)}
        dec = {0: set(), 1: set()}
        other = set()
        infeasible = False
        for k, v in p.st.facts.items():
            k2 = fold(k)
            c = first_or_later(k2, sid)
            if c is not None:
                if c != v:
                    infeasible = True
                continue
            ks = {x.a[1] for x in walk(k2) if x.op == "lv" and x.a[0] == sid}
            if ks == {1}:
                dec[1].add((rename(k2, sid, 1, 0), v))
            elif ks == {0}:
                dec[0].add((k2, v))
            elif ks:
                ctx.violation("isolated", name + ":decision", "what is counted for a user depends on the user scored before: %s" % str(k2)[:100], where(f), api.path_steps(p.events))
                return
            else:
                other.add((k2, v))
        if infeasible:
            continue
        n = sum(1 for ev in p.events if ev.kind == "iter" and ev.d[0] == sid)
        if n == 1:
            single[(frozenset(other), frozenset(dec[0]))] = (vals, p)
        elif n == 2:
            double.append((frozenset(other), frozenset(dec[0]), frozenset(dec[1]), vals, p))
    for oth, d0, d1, vals, p in double:
        a, b = single.get((oth, d0)), single.get((oth, d1))
        if a is None or b is None:
            ctx.saw("not_understood", name + ": decisions of two users cannot be matched")
            continue
        for key, v in vals.items():
            ctx.obligation("isolated", "%s:%s" % (name, key))
            parts2, pa, pb = fraction(v), fraction(a[0].get(key, const(0))), fraction(b[0].get(key, const(0)))
            if key not in a[0] or parts2 is None:
                continue
            for i, part in enumerate(("numerator", "denominator")):
                if part == "numerator" and (parts2[1] is None) != (pa[1] is None):
                    continue
                if parts2[i] is None or pa[i] is None or pb[i] is None:
                    continue
                if part == "denominator" and user_count(parts2[i], p):
                    continue
                want = add(summands(pa[i]), summands(rename(pb[i], sid, 0, 1)))
                got = summands(parts2[i])
                if not equal(want, got):
                    ctx.violation("isolated", "%s:%s" % (name, key), "what a user adds to the %s of %s depends on the users scored before" % (part, key), where(f), api.path_steps(p.events))
    for vals, p in single.values():
        keys(ctx, f, vals, p, sid)


def user_count(t, p):
    """the number of users scored: the length of the users of the batches, or of all of them"""
    t = bare(t)
    of = None
    if t.op in ("call", "alloc") and t.a[0] == "builtins.len" and t.a[1]:
        of = t.a[1][0]
    elif t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]) and cval(t.a[1]) == 0:
        of = t.a[0].a[0]
    elif t.op == "attr" and t.a[1] == "size":
        of = t.a[0]
    if of is None:
        return False
    for ev in recommends(p):
        recv, args, kws = ev.d[1]
        u = args[0] if args else dict(kws).get("userid")
        if u is not None and bare(of) in (bare(u), users_of(u)[0]):
            return True
    return False


def fraction(t):
    if t.op == "bin" and t.a[0] == "/":
        return t.a[1], t.a[2]
    if is_const(t):
        return t, None
    return t, None


def add(x, y):
    out = [x[0] + y[0], dict(x[1])]
    for k, v in y[1].items():
        out[1][k] = out[1].get(k, 0) + v
    return out


def equal(x, y):
    return abs(x[0] - y[0]) < 1e-12 and {k: v for k, v in x[1].items() if v} == {k: v for k, v in y[1].items() if v}


def keys(ctx, f, vals, p, sid):
    """which ingredients belong to which metric"""
    name = f.qual
    steps = api.path_steps(p.events)
    for key in ("precision", "map", "ndcg", "auc"):
        ctx.obligation("keys", "%s:%s" % (name, key))
        if key not in vals:
            ctx.violation("keys", "%s:%s" % (name, key), "the metric %s is not reported" % key, where(f), steps)
            continue
        v = vals[key]
        if is_const(v):
            continue
        num, den = fraction(v)
        logs = any(x.op in ("call", "alloc") and x.a[0].startswith(("numpy.log", "libc.math.log")) for x in walk(num))
        neg = any(x.op == "sub" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and is_const(x.a[1]) and cval(x.a[1]) == 1 and root(x.a[0].a[0]) is TEST for x in outside(num))
        hits = is_const(num)
        if den is not None and user_count(den, p):
            den = const(1)
        per_user = den is not None and is_const(den)
        got = "ndcg" if logs else "auc" if neg else "precision" if hits and not per_user else "map" if per_user else None
        if got is None and key != "precision" and den is not None and fraction(vals.get("precision", const(0)))[1] is den:
            ctx.violation("keys", "%s:%s:average" % (name, key), "%s is not averaged over the users scored" % key, where(f), steps)
        elif got is None:
            ctx.saw("not_understood", "%s: %s = %s" % (name, key, str(v)[:80]))
        elif got != key and not (key == "map" and got == "precision" and hits):
            ctx.violation("keys", "%s:%s" % (name, key), "%s is reported as %s" % (got, key), where(f), steps)
        elif key != "precision" and den is not None and not is_const(den):
            ctx.violation("keys", "%s:%s:average" % (name, key), "%s is not averaged over the users scored" % key, where(f), steps)
        elif key == "precision" and per_user:
            ctx.violation("keys", "%s:%s:average" % (name, key), "precision is divided by the number of users", where(f), steps)
        elif per_user and key != "precision" and cval(den) != 1:
            ctx.violation("keys", "%s:%s:average" % (name, key), "one user counts as %s users" % cval(den), where(f), steps)


def outside(t):
    """subterms, not looking into the user lookup and the recommendations"""
    yield t
    if t.op in ("lv", "inpl") or t.op == "meth" and t.a[1] in ("recommend", "size", "find"):
        return
    for k in kids(t):
        yield from outside(k)
