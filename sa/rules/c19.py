"""C19: the training callback runs once per iteration, after that iteration's updates, with its index; models without iterations reject it."""
from .. import api
from .. import model as M
from .. import query
from ..terms import NONE, cval, is_const, kids, mk, walk
from .c07 import where

MINIMUM = {"iterating": 1}
FACTORS = ("user_factors", "item_factors")


def check(ctx):
    proj = ctx.proj
    ctx.rule("once", "in every iteration of the training loop a given callback is called exactly once, and nowhere else in fit")
    ctx.rule("after-updates", "both factor matrices are updated before the callback of an iteration, and not after it within the iteration")
    ctx.rule("index", "the first argument of the callback is the iteration index, counted from zero")
    ctx.rule("count", "the training loop runs over range(iterations) and is never left early")
    ctx.rule("reject", "fit of a model that does not iterate never returns normally when a callback was given")
    ctx.rule("forward", "a wrapper trains its model exactly once and hands it the caller's callback")
    for c in api.model_classes(proj):
        f = proj.method(c, "fit")
        if f is None or f.is_abstract:
            continue
        init = proj.method(c, "__init__")
        name = "%s.fit" % c.qual
        e, paths = api.run(ctx, f, c, loops=2)
        cb = callback_param(proj, f)
        inner = [p for p in paths if p.kind == "ret" and any(delegated(proj, e, ev) for ev in p.events)]
        if init is not None and "iterations" in init.params:
            ctx.saw("iterating", name)
            for p in paths:
                iterating(ctx, name, f, c, e, p, cb)
        elif inner:
            ctx.saw("wrappers", name)
            for p in paths:
                if p.kind == "ret":
                    wrapper(ctx, name, f, e, p, cb)
        else:
            ctx.saw("rejecting", name)
            ctx.obligation("reject", name)
            for p in paths:
                if p.kind == "ret" and given(e, p, cb) is not False:
                    if any(ev.kind == "callv" and M.ident(ev.d[0]) is cb for ev in p.events):
                        ctx.saw("not_understood", name + ": callback called by a model without iterations")
                        continue
                    ctx.violation("reject", name, "returns normally although a callback was given, without ever calling it", where(f), api.path_steps(p.events))


def callback_param(proj, f):
    if "callback" in f.params:
        return mk("param", "callback")
    # the fourth positional argument of the common interface
    b = query.signature(proj, "fit")
    i = b.index("callback") + 1 if b and "callback" in b else None
    return mk("param", f.params[i]) if i is not None and i < len(f.params) else mk("param", "callback")


def given(e, p, cb):
    """True / False when the path decides whether a callback was given, else None"""
    for k, v in p.st.facts.items():
        if k.op == "truth" and k.a[0] is cb:
            return v
        if k.op == "isnone" and k.a[0] is cb:
            return not v
        if k.op == "call" and k.a[0] == "builtins.callable" and k.a[1] and k.a[1][0] is cb and v is True:
            return True
    return None


def delegated(proj, e, ev):
    if ev.kind != "call" or not isinstance(ev.d[0], str) or not ev.d[0].startswith("method:"):
        return None
    b = query.bound_of(proj, e, ev.d)
    return b if b and b[0] == "fit" and M.ident(b[2]).op != "self" else None


def wrapper(ctx, name, f, e, p, cb):
    ctx.obligation("forward", name)
    calls = [(ev, delegated(ctx.proj, e, ev)) for ev in p.events]
    calls = [(ev, b) for ev, b in calls if b]
    if not calls:
        ctx.violation("forward", name + ":never", "returns without training the wrapped model", where(f), api.path_steps(p.events))
        return
    if len(calls) > 1:
        ctx.violation("forward", name + ":twice", "trains the wrapped model %d times" % len(calls), calls[1][0].where, api.path_steps(p.events))
    ev, b = calls[0]
    if given(e, p, cb) is False:
        return
    v = b[1].get("callback")
    if v is None or v is NONE or is_const(v):
        ctx.violation("forward", name + ":dropped", "trains the wrapped model without the caller's callback", ev.where, api.path_steps(p.events))
    elif M.ident(v) is not cb:
        ctx.saw("not_understood", "%s: callback=%s" % (name, v))


def iterating(ctx, name, f, c, e, p, cb):
    me = api.selfterm(c)
    g = given(e, p, cb)
    ctx.obligation("once", name)
    ctx.obligation("count", name)
    cur = {a: mk("attr", me, a) for a in FACTORS}
    alias = {a: {mk("attr", me, a)} for a in FACTORS}
    stack = []                                  # [sid, range, records, current]
    outside = []
    train = None
    for ev in p.events:
        if ev.kind == "set" and ev.d[0] is me and ev.d[1] in FACTORS:
            cur[ev.d[1]] = M.ident(ev.d[2])
            alias[ev.d[1]].add(M.ident(ev.d[2]))
            touch(stack, ev.d[1], ev)
        elif ev.kind == "mut":
            for a in FACTORS:
                if hits(e, p, ev.d[0], cur[a], alias[a]):
                    touch(stack, a, ev)
        elif ev.kind == "loop":
            stack.append([ev.d[0], ev.d[1], [], None, ev])
        elif ev.kind == "iter":
            if stack and stack[-1][0] == ev.d[0]:
                stack[-1][3] = {"k": ev.d[1], "calls": [], "touch": [], "order": []}
                stack[-1][2].append(stack[-1][3])
        elif ev.kind == "loopend":
            if stack and stack[-1][0] == ev.d[0]:
                L = stack.pop()
                if is_training(L):
                    if not stack:
                        train = one(ctx, name, e, p, L, g, cb, me, train)
                        if len(ev.d) > 1 and ev.d[1] == "break" and p.kind == "ret":
                            early(ctx, name, e, p, ev)
                    else:
                        ctx.saw("not_understood", name + ": nested training loop")
        elif ev.kind == "callv" or ev.kind == "call" and M.ident(ev.d[0] if hasattr(ev.d[0], "op") else NONE) is cb:
            t = M.ident(ev.d[0])
            if t is not cb and not (t.op == "attr" and t.a[0] is me and "callback" in t.a[1]):
                continue
            rec = next((L[3] for L in reversed(stack) if L[3] is not None), None)
            if rec is None:
                outside.append(ev)
            else:
                for L in stack:
                    if L[3] is not None:
                        L[3]["order"].append(("call", ev, t))
                rec["calls"].append((ev, t))
    for L in stack:
        if p.kind == "ret" and is_training(L):
            # returned from inside the loop
            early(ctx, name, e, p, p.events[-1])
            train = one(ctx, name, e, p, L, g, cb, me, train)
    for ev in outside:
        if g is not False:
            ctx.violation("once", name + ":outside", "calls the callback outside the training loop", ev.where, api.path_steps(p.events))


def touch(stack, a, ev):
    for L in stack:
        if L[3] is not None:
            L[3]["order"].append(("touch", ev, a))


def hits(e, p, target, cur, aliases):
    t = M.ident(target)
    if t is cur:
        return True
    return any(r is cur or r in aliases for r in M.roots(e, target, p.st))


def is_training(L):
    return any(o[0] == "touch" for r in L[2] for o in r["order"]) or any(r["calls"] for r in L[2])


def early(ctx, name, e, p, ev):
    ctx.violation("count", name + ":early", "training can stop before the configured number of iterations", ev.where, api.path_steps(p.events))


def one(ctx, name, e, p, L, g, cb, me, train):
    sid, rng, recs = L[0], L[1], L[2]
    if p.kind == "ret":
        length(ctx, name, e, p, L, me)
    for r in recs:
        touched = {o[2] for o in r["order"] if o[0] == "touch"}
        calls = [o for o in r["order"] if o[0] == "call"]
        mine = [o for o in calls if o[2] is cb]
        complete = p.kind == "ret" or r is not recs[-1]
        if g is True or g is None and not calls:
            if complete and not mine:
                what = "a callback given by the caller is not called in iteration %d" % r["k"]
                ctx.violation("once", name + ":missed", what, L[4].where, api.path_steps(p.events))
                continue
        if len(calls) > 1:
            ctx.violation("once", name + ":twice", "the callback is called %d times in one iteration" % len(calls), calls[1][1].where, api.path_steps(p.events))
        for o in calls[:1]:
            ctx.obligation("after-updates", name)
            ctx.obligation("index", name)
            i = r["order"].index(o)
            before = {x[2] for x in r["order"][:i] if x[0] == "touch"}
            after = {x[2] for x in r["order"][i + 1:] if x[0] == "touch"}
            for a in sorted(after):
                ctx.violation("after-updates", "%s:%s" % (name, a), "%s is still updated after the callback of the same iteration" % a, o[1].where, api.path_steps(p.events))
            for a in FACTORS:
                if a not in before and a not in after:
                    ctx.violation("after-updates", "%s:%s:none" % (name, a), "an iteration calls the callback without updating %s" % a, o[1].where, api.path_steps(p.events))
            index(ctx, name, e, p, L, r, o[1])
    return True


def index(ctx, name, e, p, L, r, ev):
    args = [x for x in ev.d[1]] if len(ev.d) > 1 and isinstance(ev.d[1], tuple) else []
    if not args or not hasattr(args[0], "op"):
        ctx.saw("not_understood", name + ": callback arguments")
        return
    a = args[0]
    k = r["k"]
    if is_const(a):
        if L[1].op == "while" and cval(a) == k or k == 0 and cval(a) == 0 and L[1].op == "while":
            return
        if L[1].op == "range" and is_const(a) and cval(a) == k:
            return                              # a counter kept by hand
        ctx.violation("index", name, "the callback is given %s as the index of iteration %d" % (a, k), ev.where, api.path_steps(p.events))
        return
    if a.op == "lv" and a.a[0] == L[0]:
        if is_const(a.a[2]) and cval(a.a[2]) != 0:
            ctx.violation("index", name + ":base", "iteration indexes given to the callback start at %s" % a.a[2], ev.where, api.path_steps(p.events))
        return
    from .. import native
    d = native.linear(a)
    vs = [x for x in d if x != 1 and x.op == "lv" and x.a[0] == L[0]]
    if len(vs) == 1:
        rest = {x: v for x, v in d.items() if x is not vs[0]}
        lo = native.linear(vs[0].a[2])
        tot = native.plus(rest, lo)
        if d[vs[0]] == 1 and not tot:
            return
        ctx.violation("index", name, "the callback is given %s instead of the iteration index" % a, ev.where, api.path_steps(p.events))
        return
    if any(x.op == "lv" and x.a[0] == L[0] for x in walk(a)):
        ctx.saw("not_understood", "%s: index %s" % (name, a))
        return
    ctx.violation("index", name, "the callback is given %s instead of the iteration index" % str(a)[:100], ev.where, api.path_steps(p.events))


def length(ctx, name, e, p, L, me):
    it = mk("attr", me, "iterations")
    r = L[1]
    from .. import native
    if r.op == "call" and r.a[0] in ("builtins.enumerate", "tqdm.auto.tqdm", "tqdm.tqdm") and r.a[1]:
        r = r.a[1][0]
    if r.op != "range":
        if r.op == "while":
            # the loop condition must bound the iterations
            bound = [k for k in p.st.facts if k.op == "cmp" and any(x is it for y in kids(k) for x in walk(y))]
            if not bound:
                ctx.saw("not_understood", name + ": while loop")
        else:
            ctx.saw("not_understood", "%s: loop over %s" % (name, r))
        return
    if not (is_const(r.a[2]) and cval(r.a[2]) == 1):
        if is_const(r.a[2]) and abs(cval(r.a[2])) != 1:
            ctx.violation("count", name + ":step", "the training loop advances by %s" % r.a[2], L[4].where, api.path_steps(p.events))
        else:
            ctx.saw("not_understood", "%s: loop over %s" % (name, r))
        return
    d = native.diff(r.a[1], r.a[0])
    if d == {it: 1}:
        return
    if {k: v for k, v in d.items() if k != 1} == {it: 1}:
        ctx.violation("count", name + ":length", "the training loop runs iterations%+d times" % d[1], L[4].where, api.path_steps(p.events))
        return
    if not any(x is it for k in d if k != 1 for x in walk(k)) and not any(is_wrapped(k) for k in d if k != 1):
        ctx.violation("count", name + ":length", "the training loop runs over %s, not over the configured iterations" % r, L[4].where, api.path_steps(p.events))
        return
    if set(d) - {1} and d.get(1, 0) == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1 and k.op == "call" and k.a[0] in ("builtins.max", "builtins.min") and len(k.a[1]) == 2 and any(x is it for x in k.a[1]):
            other = next(x for x in k.a[1] if x is not it)
            if is_const(other) and isinstance(cval(other), int) and not (k.a[0] == "builtins.max" and cval(other) <= 0):
                ctx.violation("count", name + ":length", "the training loop runs %s(%s, iterations) times" % (k.a[0].rsplit(".", 1)[-1], cval(other)), L[4].where, api.path_steps(p.events))
                return
    ctx.saw("not_understood", "%s: loop over %s" % (name, r))


def is_wrapped(k):
    return k.op in ("unknown", "iterval")
