"""C01: query calls never change a fitted model."""
from .. import api
from .. import effects
from .. import model as M
from ..terms import NONE, mk, walk

MINIMUM = {"queries": 20}
INDEX_MUT = ("add", "set", "train", "build", "unbuild", "create", "reset", "remove", "delete", "load", "unload", "on_disk", "merge", "reserve",
             "reconstruct_to", "update", "replace", "make_direct_map", "clear", "append", "insert", "pop", "sort", "fit", "partial_fit",
             "retrain", "rebuild", "resize", "fill", "put", "setdefault")
INDEX_OK = ("get", "search", "query", "knn", "recommend", "similar", "explain", "copy", "save", "dump", "to_", "dot", "shape")


def none_only(proj, c, ctx):
    """attributes construction and training only ever assign None to (or never assign): lazily filled caches"""
    me = api.selfterm(c)
    vals = {}
    ms = list(api.train_methods(proj, c)) + [f for n, f in api.all_methods(proj, c).items() if n in ("__init__", "__setstate__")]
    for f in ms:
        e, paths = api.run(ctx, f, c)
        for p in paths:
            for ev in p.events:
                if ev.kind == "set" and ev[0] is me:
                    # filled only when found empty (a query used by training)
                    lazy = ev[2] is not NONE and (ev[3] is NONE or p.fact(mk("isnone", mk("attr", me, ev[1]))) is True) and f.name != "fit"
                    vals.setdefault(ev[1], set()).add(ev[2] is NONE or lazy)
    return {a for a, v in vals.items() if v == {True}}, set(vals)


def alias_methods(ctx):
    """names of model methods that can return memory of the model itself"""
    names = set()
    for c in api.model_classes(ctx.proj):
        me = api.selfterm(c)
        for n, f in api.all_methods(ctx.proj, c).items():
            if api.is_train(n) or n in api.STATE_NAMES or f.is_abstract or f.is_classmethod:
                continue
            e, paths = api.run(ctx, f, c)
            for p in paths:
                if p.kind != "ret":
                    continue
                vals = p.value.a[0] if p.value.op == "tuple" else (p.value,)
                for v in vals:
                    for r in M.roots(e, v, p.st):
                        o, nm = effects.chain(r)
                        if o is me and nm:
                            names.add(n)
    return names


def params_in(t, skip):
    return {x.a[0] for x in walk(t) if x.op == "param" and x.a[0] not in skip}


def check(ctx):
    proj = ctx.proj
    ctx.rule("no-write", "no path through a query assigns, deletes or updates in place anything reachable from the model, except filling an "
             "empty cache (an attribute construction and training only ever set to None) from the model's own state")
    ctx.rule("no-index-update", "no path through a query calls a building or updating operation of an index, scorer or wrapped model")
    ctx.assume("fancy indexing and arithmetic of numpy, and indexing of scipy sparse matrices, return fresh memory; slicing, reshape, ravel, "
               "squeeze, transpose and integer indexing may return views")
    am = alias_methods(ctx)
    ctx.note("methods that can hand out the model's own memory: " + ", ".join(sorted(am)))
    for c in api.model_classes(proj):
        me = api.selfterm(c)
        caches, known = none_only(proj, c, ctx)
        for f in api.query_methods(proj, c):
            ctx.saw("queries", "%s.%s" % (c.qual, f.name))
            ctx.obligation("no-write", "%s.%s" % (c.qual, f.name))
            ctx.obligation("no-index-update", "%s.%s" % (c.qual, f.name))
            e, paths = api.run(ctx, f, c)
            for p in paths:
                query_path(ctx, c, f, e, p, me, caches, am)
    scorer(ctx)


def restored(p, i, me, a):
    """the write at event i is undone before the path ends, even when something in between raises"""
    cur = mk("attr", me, a)
    protected = False
    calls = False
    for ev in p.events[i + 1:]:
        if ev.kind == "finally":
            protected = True
        elif ev.kind in ("call", "callv", "enter"):
            if not protected:
                calls = True
        elif ev.kind == "set" and ev[0] is me and ev[1] == a and ev[2] is cur:
            return protected or not calls
    return False


def query_path(ctx, c, f, e, p, me, caches, am):
    for i, ev, o, names, how, val in effects.writes(e, p, am):
        if o is not me or not names:
            continue
        a = names[0]
        if ev.kind == "set" and len(names) == 1:
            if val is NONE and a in caches:
                continue
            if M.ident(val) is mk("attr", me, a) or restored(p, i, me, a):
                continue
            if a in caches or ev[3] is NONE or p.fact(mk("isnone", mk("attr", me, a))) is True:
                dep = params_in(val, ())
                if not dep:
                    continue
                ctx.violation("no-write", "%s.%s:%s" % (c.qual, f.name, a), "stores a value computed from the query's %s in self.%s, where later "
                              "queries find it" % (", ".join(sorted(dep)), a), ev.where, api.path_steps(p.events))
                continue
        if a.endswith("()"):
            a = a[:-2]
        ctx.violation("no-write", "%s.%s:%s" % (c.qual, f.name, ".".join(names)), "a query %s self.%s" % (how, ".".join(names)), ev.where,
                      api.path_steps(p.events))
    for ev in p.events:
        if ev.kind != "call" or not isinstance(ev[0], str) or not ev[0].startswith("method:"):
            continue
        o, names = effects.chain(ev[1][0])
        if o is not me or not names:
            continue
        m = ev[0][7:]
        if m.startswith(INDEX_OK) and not m.startswith("set"):
            continue
        if m.startswith(INDEX_MUT) or m.lstrip("_").startswith(INDEX_MUT):
            ctx.violation("no-index-update", "%s.%s:%s.%s" % (c.qual, f.name, ".".join(names), m), "a query calls %s on self.%s" % (m, ".".join(names)),
                          ev.where, api.path_steps(p.events))


def scorer(ctx):
    """the shared neighbour scorer: only its accumulator may change"""
    proj = ctx.proj
    cls = None
    for m in proj.modules.values():
        for k in m.classes.values():
            if k.is_cclass and any("SparseMatrixMultiplier" in str(t) for t in k.fields.values()):
                cls = k
    if cls is None:
        ctx.note("no native scorer class found")
        return
    acc = {n for n, t in cls.fields.items() if "SparseMatrixMultiplier" in str(t)}
    me = api.selfterm(cls)
    for n, f in cls.methods.items():
        if n.startswith("__"):
            continue
        ctx.obligation("no-write", "%s.%s" % (cls.qual, n))
        ctx.saw("queries", "%s.%s" % (cls.qual, n))
        e, paths = api.run(ctx, f, cls, inline_kernels=True, loops=1)
        for p in paths:
            for i, ev, o, names, how, val in effects.writes(e, p):
                if o is me and names and names[0] not in acc:
                    ctx.violation("no-write", "%s.%s:%s" % (cls.qual, n, ".".join(names)), "scoring %s self.%s" % (how, ".".join(names)), ev.where,
                                  api.path_steps(p.events))
