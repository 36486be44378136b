"""C05: every option of a query is honoured or rejected, never dropped."""
import ast

from .. import api
from .. import model as M
from .. import query as Q
from ..query import P
from ..engine import View
from ..terms import const, NONE, cval, is_const, mk, walk

mk_zero = const(0)
MINIMUM = {"queries": 8}
ARRAYS = ("filter_items", "items", "filter_users", "users", "userid", "itemid", "user_items", "item_users", "selected_items", "userids", "itemids",
          "user_weights")
METRICS = "ranking_metrics_at_k"
ALIASES = ("recommend_all", "rank_items", "recommend", "similar_items", "similar_users")


def alternatives(p):
    return [View(f, p.st.heap) for f in p.st.full_facts()]


def absent(e, v, a):
    t = P(a)

    def dec(x):
        n, pol = e.norm(x)
        r = e._decide(n, v)
        return None if r is None else r == pol
    if dec(mk("isnone", t)) is True or dec(mk("truth", t)) is False:
        return True
    for n in (mk("call", "builtins.len", (t,), ()), mk("attr", t, "size")):
        if dec(mk("truth", n)) is False or dec(mk("cmp", "<", mk_zero, n)) is False:
            return True
    return False


def neutral(e, p, a):
    """the path has decided that option a was not given (or given empty)"""
    return all(absent(e, v, a) for v in alternatives(p))


def pinned(e, p, a, v):
    """the path has decided that option a equals the constant v"""
    t = P(a)
    c = cval(v)
    if c is None:
        return e.decide(mk("isnone", t), p.st) is True
    if isinstance(c, bool):
        return e.decide(mk("truth", t), p.st) is c
    return e.decide(mk("cmp", "==", t, v), p.st) is True or e.decide(mk("cmp", "==", v, t), p.st) is True


def deps(p):
    """parameters the returned value is computed from"""
    seen = set()
    out = set()
    todo = [p.value]
    heap = {}
    for k, v in p.st.heap.items():
        heap.setdefault(k[0], []).append(v)
    while todo:
        for x in walk(todo.pop(), seen):
            if x.op == "param":
                out.add(x.a[0])
            todo += heap.get(x, ())
    return out


def conditional(e, p, a, params):
    """options that only matter together with another one"""
    off = lambda x: x not in params or e.decide(mk("truth", P(x)), p.st) is False  # noqa: E731
    if a == "item_users":
        return off("recalculate_item")
    if a in ("user_items", "filter_already_liked_items"):
        if a == "user_items" and off("filter_already_liked_items") and off("recalculate_user"):
            return True
        # no interactions at all: nothing to filter
        return all(absent(e, v, "filter_already_liked_items") or any(
            val is False and k.op == "truth" and k.a[0].op == "attr" and k.a[0].a[1] == "nnz" and "user_items" in Q.params_of(k)
            for k, val in v.facts.items()) for v in alternatives(p))
    if a == "userid":
        return e.decide(mk("truth", P("recalculate_user")), p.st) is True
    if a == "itemid":
        return e.decide(mk("truth", P("recalculate_item")), p.st) is True
    return False


def capped(facts, t):
    """the path found the count to be at least a number of elements, which stands in for it"""
    for k, v in facts.items():
        if k.op == "cmp" and k.a[0] in ("<", "<="):
            lo, hi = (k.a[1], k.a[2]) if v else (k.a[2], k.a[1])
            if hi is t and (lo.op == "call" and lo.a[0] == "builtins.len" or lo.op == "sub" and lo.a[0].op == "attr" and lo.a[0].a[1] == "shape"
                            or lo.op == "attr" and lo.a[1] == "size"):
                return True
    return False


def consistent(f, g, but):
    """two fact sets that only disagree on the flag"""
    return all(g.get(k, v) == v for k, v in f.items() if k is not but)


def check(ctx):
    proj = ctx.proj
    ctx.rule("honoured", "on every returning path of a query each option is either decided to be absent or the returned value is computed from it; "
             "a flag decides between different values")
    ctx.rule("forwarded", "a query handed to another query passes each of the caller's options on under the same name, unchanged")
    ctx.rule("rejected", "a path that serves an item or user subset has decided that no exclusion list was given with it")
    ctx.rule("array-like", "whether an array-like option was given is decided by comparing with None, never by its truth value")
    ctx.rule("probe", "an optional method looked up by name on the wrapped model exists under that name")
    for c in api.model_classes(proj):
        knn = proj.method(c, "fit") is not None and any("similarity" in api_fields(proj, k) for k in proj.mro(c))
        for f in api.query_methods(proj, c):
            if f.name not in ALIASES:
                continue
            construct = "%s.%s" % (c.qual, f.name)
            ctx.saw("queries", construct)
            e, paths = api.run(ctx, f, c)
            params = [a for a in f.params + f.kwonly if a != "self"]
            skip = {"recalculate_user", "userid"} if knn else set()
            entry(ctx, construct, f, e, paths, params, skip)
        for f in api.train_methods(proj, c):
            if f.name != "fit":
                continue
            construct = "%s.%s" % (c.qual, f.name)
            e, paths = api.run(ctx, f, c)
            for p in paths:
                if p.kind == "ret":
                    forwarded(ctx, construct, f, e, p, [a for a in f.params if a in ("show_progress", "callback")])
    for f in proj.all_funcs():
        if f.mod.name == "implicit.evaluation" and f.cls is None and f.name.endswith("_at_k"):
            construct = f.qual
            ctx.saw("queries", construct)
            target = proj.find_func("implicit.evaluation." + METRICS)
            if f is target or target is None:
                continue
            e, paths = api.run(ctx, f, None, opaque={target.qual})
            entry(ctx, construct, f, e, paths, list(f.params), set())
    probes(ctx)


def api_fields(proj, k):
    out = set()
    init = k.methods.get("__init__")
    if init is None:
        return out
    for n in ast.walk(init.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            out.add(n.attr)
    return out


def entry(ctx, construct, f, e, paths, params, skip):
    for a, where in e.tested_truth(ARRAYS):
        if a in params:
            ctx.violation("array-like", "%s:%s" % (construct, a), "tests the truth of '%s': an array is rejected or its first element decides" % a, where)
    ctx.obligation("array-like", construct)
    rets = [p for p in paths if p.kind == "ret"]
    for a in params:
        ctx.obligation("honoured", "%s:%s" % (construct, a))
    ds = {}
    for p in rets:
        d = ds[p] = deps(p)
        if not d and not any(x.op == "self" for x in walk(p.value)):
            continue   # a constant answer (nothing to return)
        if all(n == 0 for n in [len(d)]):
            continue
        forwarded(ctx, construct, f, e, p, params)
        flags(ctx, construct, f, e, p, params)
        rejected(ctx, construct, f, e, p, d)
        for a in params:
            if a in skip or a in d or neutral(e, p, a) or conditional(e, p, a, params):
                continue
            tv = e.decide(mk("truth", P(a)), p.st)
            if tv is True and a not in ARRAYS:
                continue   # compared with the other setting below
            if empty_result(p) or all(capped(v.facts, P(a)) for v in alternatives(p)):
                continue
            ctx.violation("honoured", "%s:%s" % (construct, a), "the result of this path does not depend on '%s', which may have been given" % a,
                          where_ret(f), api.path_steps(p.events))
    # flags: both settings giving the very same answer
    for a in params:
        if a in skip or a in ARRAYS:
            continue
        for p in rets:
            if a in ds.get(p, ()) or e.decide(mk("truth", P(a)), p.st) is not True or empty_result(p) or conditional(e, p, a, params):
                continue
            at = mk("truth", P(a))
            for q in rets:
                if q is p or q.value is not p.value:
                    continue
                if e.decide(at, q.st) is not True and consistent(p.st.facts, q.st.facts, at):
                    ctx.violation("honoured", "%s:%s" % (construct, a), "the result is the same whether or not '%s' is set" % a, where_ret(f),
                                  api.path_steps(p.events))
                    break


def where_ret(f):
    return "%s:%d (%s)" % (f.file, f.node.lineno, f.qual)


FRESH = {"numpy." + x for x in ("array", "asarray", "zeros", "empty", "full", "ones", "stack", "vstack", "concatenate", "zeros_like", "empty_like", "full_like")}


def empty_result(p):
    """(np.array([]), np.array([])) or freshly zeroed output of zero iterations"""
    vs = p.value.a[0] if p.value.op == "tuple" else (p.value,)
    return all(v.op in ("alloc", "call", "list") and v.a[0] in FRESH if v.op in ("alloc", "call") else False
               for v in vs) and not any(x.op == "self" for v in vs for x in walk(v))


def forwarded(ctx, construct, f, e, p, params):
    proj = ctx.proj
    for ev in p.events:
        if ev.kind not in ("call", "enter"):
            continue
        b = Q.bound_of(proj, e, ev) if ev.kind == "call" else (ev[0].rsplit(".", 1)[-1], dict(ev[1]), None)
        if b is None:
            continue
        name, bound, recv = b
        if f.name == "fit":
            if name != "fit" and not (ev.kind == "call" and ev[0] == "method:fit"):
                continue
        elif name not in Q.RANK and name != METRICS:
            continue
        if name == f.name and ev.kind == "enter" and dict(ev[1]).get("self") is not None and ev is p.events[0]:
            continue
        target = "%s -> %s" % (construct, name)
        ctx.obligation("forwarded", target)
        sig = Q.signature(proj, name) if ev.kind == "call" and ev[0].startswith("method:") else [k for k, _ in ev[1]]
        ids = [bound[k] for k in ("userid", "itemid") if k in bound]
        for a in params:
            if a not in sig:
                continue
            v = bound.get(a)
            msg = None if a == "item_users" and conditional(e, p, a, params) else mismatch(e, p, a, v, ids)
            if msg:
                ctx.violation("forwarded", "%s:%s" % (target, a), "option '%s' %s when the request is handed to %s" % (a, msg, name), ev.where,
                              api.path_steps(p.events))


FLAGS = {"remove_own_likes": "filter_already_liked_items"}


def flags(ctx, construct, f, e, p, params):
    """flags handed to native code under another name keep their setting"""
    for ev in p.events:
        if ev.kind != "call" or not (isinstance(ev[0], str) and ev[0].startswith("method:") and isinstance(ev[1], tuple) and len(ev[1]) == 3):
            continue
        for k, v in ev[1][2]:
            a = FLAGS.get(k)
            if a not in params:
                continue
            ctx.obligation("forwarded", "%s -> %s:%s" % (construct, ev[0][7:], k))
            want = e.decide(mk("truth", P(a)), p.st)
            got = bool(cval(v)) if is_const(v) else e.decide(v if v.op in ("isnone", "cmp", "not", "truth") else mk("truth", v), p.st)
            if want is not None and got is not None and want != got:
                ctx.violation("forwarded", "%s -> %s:%s" % (construct, ev[0][7:], a), "option '%s' is %s but %s is %s" % (a, want, k, got), ev.where, api.path_steps(p.events))


def mismatch(e, p, a, v, ids):
    t = P(a)
    if v is None or v.op == "undef":
        if neutral(e, p, a):
            return None
        return "is not passed on"
    u = Q.unwrap(v)
    if a in ("user_items", "item_users") and not neutral(e, p, a):
        for i in ids:
            i = Q.unwrap(i)
            if i.op == "sub" and i.a[0].op == "param" and params_row(u, t) is not None and params_row(u, t) is not i.a[1]:
                return "is not the row that belongs to the id"
    if u is t:
        return None
    if v is NONE and neutral(e, p, a):
        return None
    if is_const(v):
        if neutral(e, p, a) and not cval(v):
            return None
        return None if pinned(e, p, a, v) else "is replaced by %s" % (v,)
    if any(x is t for x in Q.parts(v)):
        return None
    if u.op == "fromstar":
        return None
    if u.op in ("sub", "elem") and Q.unwrap(u.a[0]) is t:
        return None
    dep = Q.params_of(v)
    if a not in dep:
        if a.startswith("filter_") and neutral(e, p, a) and dep and dep <= {"user_items", "item_users"}:
            return None   # the likes take the place of an absent exclusion list
        return "is replaced by a value not computed from it (%s)" % str(v)[:80]
    if a == "N" and v.op == "bin":
        sliced = any(x.op == "slice" and x.a[1] is t for x in walk(p.value))
        return None if sliced else "is changed to %s" % str(v)[:80]
    return None


def params_row(u, t):
    """the row selector of u = t[rows]; t itself stands for all rows"""
    if u is t:
        return NONE
    if u.op == "sub" and Q.unwrap(u.a[0]) is t:
        return u.a[1]
    return None


def rejected(ctx, construct, f, e, p, d):
    for sub, flt in (("items", "filter_items"), ("users", "filter_users")):
        if sub not in f.params or flt not in f.params:
            continue
        ctx.obligation("rejected", "%s:%s" % (construct, sub))
        if e.decide(mk("isnone", P(sub)), p.st) is not False or neutral(e, p, flt):
            continue
        if any(Q.bound_of(ctx.proj, e, ev) and Q.bound_of(ctx.proj, e, ev)[0] in Q.RANK for ev in p.events if ev.kind == "call"):
            continue   # handed on whole: the other entry point decides
        ctx.violation("rejected", "%s:%s" % (construct, sub), "serves '%s' without having rejected a '%s' given with it" % (sub, flt), where_ret(f),
                      api.path_steps(p.events))


def probes(ctx):
    """hasattr(x.model, "name") / getattr(x.model, "name", default)"""
    proj = ctx.proj
    names = set()
    for c in proj.subclasses(api.BASE):
        names |= set(api.all_methods(proj, c))
        for k in proj.mro(c):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
    for c in proj.subclasses(api.BASE):
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 \
                        and isinstance(n.args[1], ast.Constant) and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == "model":
                    ctx.obligation("probe", "%s.%s:%s" % (c.qual, m.name, n.args[1].value))
                    if n.args[1].value not in names:
                        ctx.violation("probe", "%s.%s:%s" % (c.qual, m.name, n.args[1].value), "no model has '%s': the option it serves is never honoured"
                                      % n.args[1].value, "%s:%d" % (m.file, n.lineno))
