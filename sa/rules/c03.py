"""C03: state derived from the learned factors and kept for reuse is invalidated or rebuilt whenever the factors change."""
from .. import api
from .. import model as M
from ..terms import NONE, mk, walk, is_const

MINIMUM = {"caches": 1, "indexes": 1}


def learned_attrs(proj, c, runs):
    """attributes training stores into or updates in place"""
    me = api.selfterm(c)
    out = set()
    for e, paths in runs:
        for p in paths:
            for ev in p.events:
                if ev.kind == "set" and ev[0] is me:
                    out.add(ev[1])
                elif ev.kind == "mut":
                    for r in M.roots(e, ev[0], p.st):
                        if r.op == "attr" and r.a[0] is me:
                            out.add(r.a[1])
    return out


def self_reads(t, me):
    return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[0] is me}


def fills(e, paths, me):
    """-> [(attr, deps, guards, event, path)] for attributes filled outside training"""
    out = []
    for p in paths:
        evs = p.events
        for i, ev in enumerate(evs):
            if ev.kind != "set" or ev[0] is not me or ev[2] is NONE:
                continue
            deps = self_reads(ev[2], me) - {ev[1]}
            v = M.ident(ev[2])
            for o in evs[i + 1:]:
                if o.kind == "mut" and M.ident(o[0]) is v and o[1] != "setitem":
                    # filled by a library call: the data comes from that call's other arguments
                    if o[3].op in ("meth", "call", "alloc"):
                        for x in _terms(o[3].a[2] if o[3].op == "meth" else o[3].a[1]):
                            deps |= self_reads(x, me)
            guards = {k.a[0].a[1] for k, val in p.st.facts.items()
                      if val is True and k.op == "isnone" and k.a[0].op == "attr" and k.a[0].a[0] is me}
            out.append((ev[1], deps - {ev[1]}, guards, ev, p))
    return out


def _terms(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            out.extend(_terms(y))
        elif hasattr(y, "op"):
            out.append(y)
    return out


def factor_model(ctx, c, ann):
    proj = ctx.proj
    me = api.selfterm(c)
    truns = [(f,) + api.run(ctx, f, c) for f in api.train_methods(proj, c)]
    written = learned_attrs(proj, c, [(e, ps) for _, e, ps in truns])
    caches = {}
    for f in api.query_methods(proj, c):
        if f.cached and not f.is_property:
            ctx.violation("memoised", "%s.%s" % (c.qual, f.name), "memoises results computed from the model without any way to invalidate them", f.file)
        e, paths = api.run(ctx, f, c)
        for a, deps, guards, ev, p in fills(e, paths, me):
            d = caches.setdefault(a, {"deps": set(), "guards": None, "where": ev.where})
            d["deps"] |= deps
            d["guards"] = guards if d["guards"] is None else d["guards"] & guards
        if f.cached and f.is_property:
            deps = set()
            for p in paths:
                if p.kind == "ret":
                    deps |= self_reads(p.value, me)
            caches[f.name] = {"deps": deps, "guards": {f.name}, "where": f.file}
    # a cache may be computed from another cache: close the dependencies
    changed = True
    while changed:
        changed = False
        for a, d in caches.items():
            for x in list(d["deps"]):
                if x in caches and not caches[x]["deps"] <= d["deps"]:
                    d["deps"] |= caches[x]["deps"]
                    changed = True
    learned = {x for x in written if x not in caches}
    for a, d in list(caches.items()):
        d["deps"] &= learned
        if not d["deps"]:
            del caches[a]
        else:
            ctx.saw("caches", "%s.%s" % (c.qual, a))
    ctx.rule("invalidate", "after a learned attribute is replaced or updated in place, every attribute lazily computed from it is reset (or "
             "recomputed) before training returns, raises or calls a callback")
    for f, e, paths in truns:
        for a in caches:
            ctx.obligation("invalidate", "%s.%s: %s" % (c.qual, f.name, a))
        for p in paths:
            stale_path(ctx, c, f, e, p, caches, learned, me)


def stale_path(ctx, c, f, e, p, caches, learned, me):
    state = {a: "maybe" for a in caches}   # maybe filled by an earlier query
    cur = {}
    who = {}

    def stale(a):
        if state[a] != "stale":
            return False
        g = caches[a]["guards"] or set()
        return not any(state.get(x) == "empty" for x in g if x != a)

    def report(ev, when):
        for a in caches:
            if stale(a):
                w, attr = who[a]
                ctx.violation("invalidate", "%s.%s:%s" % (c.qual, f.name, a),
                              "%s is computed from %s, which changes at %s, but can still hold the old value %s" % (a, attr, w.where, when),
                              w.where, api.path_steps(p.events))

    for ev in p.events:
        if ev.kind == "set" and ev[0] is me:
            a = ev[1]
            if a in caches and not (M.ident(ev[2]).op == "attr" and M.ident(ev[2]).a[0] is me and M.ident(ev[2]).a[1] == a):
                state[a] = "empty" if ev[2] is NONE else "filled"
            if a in learned:
                prev = cur.get(a)
                cur[a] = M.ident(ev[2])
                if prev is None and p.fact(mk("isnone", mk("attr", me, a))) is True:
                    # nothing was learned before, so nothing can have been derived from it
                    for x, d in caches.items():
                        if a in d["deps"] and state[x] == "maybe":
                            state[x] = "empty"
                elif cur[a] is not (prev or mk("attr", me, a)):
                    touch(state, who, caches, a, ev)
        elif ev.kind == "mut":
            rts = {M.ident(ev[0])} | M.roots(e, ev[0], p.st)
            for a in learned:
                if mk("attr", me, a) in rts or (a in cur and cur[a] in rts):
                    touch(state, who, caches, a, ev)
            t = M.ident(ev[0])
            if t.op == "attr" and t.a[0] is me and state.get(t.a[1]) == "stale" and ev[1] == "setitem":
                state[t.a[1]] = "filled"     # brought up to date in part; which entries is not decided here
            if t.op == "attr" and t.a[0] is me and t.a[1] == "__dict__" and ev[1] in (".pop", "delitem"):
                k = ev[2]
                if is_const(k) and k.a[1] in state:
                    state[k.a[1]] = "empty"
                elif ev[1] == ".pop":
                    v = ev[3]
                    if v.op == "meth" and v.a[2] and is_const(v.a[2][0]) and v.a[2][0].a[1] in state:
                        state[v.a[2][0].a[1]] = "empty"
        elif ev.kind == "callv":
            report(ev, "when the callback is called")
            # the callback may query the model: whatever is recomputed when empty is now filled from the current factors
            empty = {a for a in state if state[a] == "empty"}
            for a in state:
                if a in empty or (caches[a]["guards"] or set()) & empty:
                    state[a] = "filled"
    report(None, "when the method " + ("returns" if p.kind == "ret" else "raises"))


def touch(state, who, caches, attr, ev):
    for a, d in caches.items():
        if attr in d["deps"] and state[a] in ("maybe", "filled"):
            state[a] = "stale"
            who[a] = (ev, attr)


# ---------------------------------------------------------------------------------------------- eager companions
def eager_model(ctx, c):
    """an attribute built from another one during fit must be rebuilt wherever the other one is restored"""
    proj = ctx.proj
    me = api.selfterm(c)
    pairs = set()
    fitrun = api.run(ctx, proj.method(c, "fit"), c)

    def built_from(evs, val):
        for ev in evs:
            if ev.kind == "new" and ev[0] is M.ident(val):
                return [M.ident(x) for _, x in ev[1]]
        return None

    for p in fitrun[1]:
        if p.kind != "ret":
            continue
        cur = {}
        for ev in p.events:
            if ev.kind == "set" and ev[0] is me:
                cur[ev[1]] = ev[2]
        for a, v in cur.items():
            args = built_from(p.events, v)
            if args is None:
                continue
            for l, lv in cur.items():
                if l != a and M.ident(lv) in args:
                    pairs.add((a, l))
    ctx.rule("rebuild", "an object built during fit from a learned attribute is rebuilt from that attribute's new value wherever the attribute "
             "is assigned (fit, unpickling, loading)")
    for a, l in pairs:
        ctx.saw("eager", "%s.%s<-%s" % (c.qual, a, l))
    methods = [f for n, f in api.all_methods(proj, c).items() if api.is_train(n) or n in ("__setstate__", "load")]
    for f in methods:
        e, paths = fitrun if f.name == "fit" else api.run(ctx, f, c)
        for a, l in pairs:
            ctx.obligation("rebuild", "%s.%s: %s from %s" % (c.qual, f.name, a, l))
        for p in paths:
            if p.kind != "ret":
                continue
            for a, l in pairs:
                check_pair(ctx, c, f, e, p, a, l, built_from)


def check_pair(ctx, c, f, e, p, a, l, built_from):
    objs = {}
    dynset = set()
    for ev in p.events:
        if ev.kind == "set" and ev[1] in (a, l):
            objs.setdefault(ev[0], {})[ev[1]] = (ev[2], ev)
        elif ev.kind == "mut":
            t = M.ident(ev[0])
            if t.op == "attr" and t.a[1] == "__dict__" and ev[1] == ".update":
                dynset.add(t.a[0])
                objs.setdefault(t.a[0], {})[l] = (mk("attr", t.a[0], l), ev)
        if ev.kind == "mut" and f.name not in ("__setstate__", "load"):
            t = M.ident(ev[0])
            for o in [api.selfterm(c)]:
                if mk("attr", o, l) in M.roots(e, ev[0], p.st) and l not in objs.get(o, {}):
                    objs.setdefault(o, {})[l] = (t, ev)
    for o, d in objs.items():
        if l not in d:
            continue
        lv, lev = d[l]
        if lv is NONE or e.decide(mk("isnone", lv), p.st) is True:
            continue
        if a not in d:
            ctx.violation("rebuild", "%s.%s:%s" % (c.qual, f.name, a), "%s is assigned at %s but %s is not rebuilt from it" % (l, lev.where, a),
                          lev.where, api.path_steps(p.events))
            continue
        av, aev = d[a]
        args = built_from(p.events, av)
        if args is None:
            if av is NONE:
                ctx.violation("rebuild", "%s.%s:%s" % (c.qual, f.name, a), "%s holds a value but %s is left empty" % (l, a), aev.where,
                              api.path_steps(p.events))
            continue
        if M.ident(lv) not in args:
            # still fine when the object given is the same value under another name
            if not any(M.same_object(e, x, p.st) is M.same_object(e, lv, p.st) for x in args):
                ctx.violation("rebuild", "%s.%s:%s" % (c.qual, f.name, a), "%s is built from something other than the %s being stored" % (a, l),
                              aev.where, api.path_steps(p.events))


# ---------------------------------------------------------------------------------------------- approximate indexes
def ann_model(ctx, c):
    proj = ctx.proj
    me = api.selfterm(c)
    inner = mk("attr", me, "model")
    fit = proj.method(c, "fit")
    e, paths = api.run(ctx, fit, c)
    setin = {}
    for p in paths:
        for ev in p.events:
            if ev.kind == "set" and ev[0] is me:
                setin.setdefault(ev[1], []).append(ev)
    # which of them do queries use, and under which settings
    uses = {}
    for f in api.query_methods(proj, c):
        qe, qp = api.run(ctx, f, c)
        for p in qp:
            read = set()
            for ev in p.events:
                for t in _terms(ev.d):
                    read |= self_reads(t, me)
            if p.value is not None:
                read |= self_reads(p.value, me)
            flags = {k.a[0].a[1]: v for k, v in p.st.facts.items() if k.op == "truth" and k.a[0].op == "attr" and k.a[0].a[0] is me}
            for a in read & set(setin):
                uses.setdefault(a, []).append(flags)
    ctx.rule("index", "every path through fit trains the wrapped model and then rebuilds, from the newly trained item factors, each index "
             "or scale the query methods read on configurations that can reach those queries")
    for a in uses:
        ctx.saw("indexes", "%s.%s" % (c.qual, a))
        ctx.obligation("index", "%s.fit: %s" % (c.qual, a))
    for p in paths:
        if p.kind != "ret":
            continue
        evs = p.events
        fits = [i for i, ev in enumerate(evs) if ev.kind == "call" and ev[0] == "method:fit" and M.ident(ev[1][0]) is inner]
        if not fits:
            ctx.violation("index", "%s.fit:model" % c.qual, "a path through fit does not train the wrapped model", fit.file, api.path_steps(evs))
            continue
        last = fits[-1]
        flags = {k.a[0].a[1]: v for k, v in p.st.facts.items() if k.op == "truth" and k.a[0].op == "attr" and k.a[0].a[0] is me}
        for a, fl in uses.items():
            # can a query read it under this configuration?
            if all(any(f.get(n) is not None and f[n] != v for n, v in flags.items()) for f in fl):
                continue
            sets = [(i, ev) for i, ev in enumerate(evs) if ev.kind == "set" and ev[0] is me and ev[1] == a]
            good = [x for x in sets if x[0] > last and x[1][2] is not NONE]
            if not good:
                ctx.violation("index", "%s.fit:%s" % (c.qual, a), "%s is not rebuilt after the model is trained on a path where queries use it" % a,
                              (sets[-1][1].where if sets else fit.file), api.path_steps(evs))
                continue
            val = M.ident(good[-1][1][2])
            if val.op == "attr" and val.a[0] is me and val.a[1] in setin:
                ctx.violation("index", "%s.fit:%s" % (c.qual, a), "%s keeps the previous object" % a, good[-1][1].where, api.path_steps(evs))
                continue
            if any(x.op == "attr" and x.a[0] is me and x.a[1] == a for x in walk(val)):
                ctx.violation("index", "%s.fit:%s" % (c.qual, a), "%s is computed from the value an earlier fit left behind" % a, good[-1][1].where,
                              api.path_steps(evs))
                continue
            if a in setin and not from_model(val, evs, inner, me, p, e):
                ctx.violation("index", "%s.fit:%s" % (c.qual, a), "%s is filled from something other than the newly trained factors" % a,
                              good[-1][1].where, api.path_steps(evs))


def factor_versions(t, inner):
    """versions of the wrapped model's factors mentioned in t (0: as they were before fit)"""
    return {x.a[2] if len(x.a) > 2 else 0 for x in walk(t) if x.op == "attr" and x.a[1] in ("item_factors", "user_factors") and M.ident(x.a[0]) is inner}


def from_model(val, evs, inner, me, p, e):
    """value derived from post-fit factors, directly or by filling the object"""
    fed = set()
    v = factor_versions(val, inner)
    if v:
        return 0 not in v
    anycall = False
    for ev in evs:
        if ev.kind != "call" or not isinstance(ev[1], tuple) or not ev[0].startswith("method:"):
            continue
        if M.ident(ev[1][0]) is val:
            for t in _terms(ev[1][1:]):
                anycall = True
                fed |= factor_versions(t, inner)
    if fed:
        return 0 not in fed
    # loops over rows with zero iterations feed nothing; constants and parameters are settings, not indexes
    return not anycall or any(ev.kind == "loop" for ev in evs) or val.op in ("const", "attr", "param")


def check(ctx):
    ctx.assume("callbacks may call any query method of the model; training methods are not re-entered from them")
    ctx.assume("native kernels and solvers write only their documented output arguments (decided by C10 and C12)")
    for c in api.model_classes(ctx.proj):
        if c.mod.name.startswith("implicit.ann"):
            ann_model(ctx, c)
        elif c.mod.name == "implicit.nearest_neighbours":
            eager_model(ctx, c)
        else:
            factor_model(ctx, c, False)
