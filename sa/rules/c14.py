"""C14: every setting reaches the attribute of its own name: constructors, factories and CPU/GPU conversions; index settings reach every index."""
from .. import api
from .. import model as M
from ..project import AnalysisBroken
from ..terms import NONE, T, cval, is_const, kids, mk, walk
from .c04 import flat
from .c07 import where
from . import c13

MINIMUM = {"constructors": 4}
ANCHORS = ("implicit.als.AlternatingLeastSquares", "implicit.bpr.BayesianPersonalizedRanking", "implicit.lmf.LogisticMatrixFactorization",
           "implicit.approximate_als.NMSLibAlternatingLeastSquares", "implicit.approximate_als.AnnoyAlternatingLeastSquares",
           "implicit.approximate_als.FaissAlternatingLeastSquares")
KEEP = {"numpy.dtype", "copy.copy", "copy.deepcopy", "builtins.dict", "builtins.str", "implicit.gpu.Matrix", "implicit.gpu._cuda.Matrix", "numpy.array",
        "numpy.asarray", "numpy.ascontiguousarray", "implicit.utils.check_random_state"}
KEEP_METH = {"to_numpy", "copy", "astype", "item"}
NUMBERS = {"builtins.int": int, "builtins.float": float, "builtins.bool": bool}
FACTORS = ("user_factors", "item_factors")


def check(ctx):
    proj = ctx.proj
    ctx.rule("stores", "a constructor that returns has stored every setting it accepts under the setting's own name, unchanged apart from type conversion; a default only takes the place of None")
    ctx.rule("used", "training or a query reads every stored setting")
    ctx.rule("factory", "the model a factory returns holds every setting the factory was given that the model supports, under its own name")
    ctx.rule("backend", "a factory returns a GPU model exactly when use_gpu was true")
    ctx.rule("convert", "to_gpu / to_cpu return a model holding each setting and factor matrix both classes have, taken from the attribute of the same name")
    ctx.rule("meaning", "where training hands a setting to a function that has a parameter named like a setting, it is the parameter of the same name")
    ctx.rule("index", "every search index a model builds is built with the same settings")
    classes = api.model_classes(proj)
    sup = {}
    for c in classes:
        sup[c.qual] = constructor(ctx, c)
    facts = [proj.find_func(q) if hasattr(proj, "find_func") else None for q in ANCHORS]
    facts = [f for f in facts if f is not None]
    names = {c.name for c in classes} | {q.rsplit(".", 1)[1] for q in ANCHORS}
    for f in proj.all_funcs():
        if f.cls is None and not f.name.startswith("_") and f not in facts and not f.is_kernel and f.name in names:
            facts.append(f)
    for f in facts:
        factory(ctx, f, sup)
    for c in classes:
        for n in ("to_gpu", "to_cpu"):
            f = proj.method(c, n)
            if f is not None and not f.is_abstract:
                conversion(ctx, c, f, sup)
        index(ctx, c)


def find(proj, qual):
    return proj.find_class(qual)


def strip(v, kind=None):
    """the value behind conversions that keep its meaning; kind: type of the setting's default"""
    while isinstance(v, T):
        v = M.ident(v)
        if v.op in ("call", "alloc", "neutral") and v.a[0] in KEEP and len(v.a) > 1 and v.a[1]:
            v = v.a[1][0]
        elif v.op in ("call", "alloc") and v.a[0] in NUMBERS and v.a[1] and (kind is None or issubclass(kind, NUMBERS[v.a[0]]) or NUMBERS[v.a[0]] is float and kind in (int, float)):
            v = v.a[1][0]
        elif v.op == "meth" and v.a[1] in KEEP_METH:
            v = v.a[0]
        elif v.op == "new" and v.a[0].endswith(".Matrix"):
            return v
        elif v.op == "cast":
            v = v.a[-1]
        else:
            return v
    return v


def matrix_args(p, o):
    """what a freshly made GPU matrix was made from"""
    for ev in p.events:
        if ev.kind == "new" and ev.d[0] is o:
            return [v for n, v in ev.d[1] if isinstance(v, T) and n != "self"]
    return []


def is_none(p, src):
    for k, v in p.st.facts.items():
        if k.op == "isnone" and k.a[0] is src:
            return v
    return None


def carried(e, p, v, src, kind=None):
    """None when v is the caller's value src, else a description of how it differs; 'unknown' when it cannot be told"""
    if v is None:
        return "is never stored"
    u = strip(v, kind)
    if u is src:
        return None
    if u.op == "new" and u.a[0].endswith(".Matrix"):
        got = [strip(x) for x in matrix_args(p, u)]
        if any(x is src for x in got):
            return None
        return "is made from %s" % ", ".join(str(x)[:60] for x in got) if got and not any(mentions(x, src) for x in got) else "unknown"
    if is_none(p, src) is True:
        return None
    if is_const(u):
        for k, x in p.st.facts.items():
            if x is True and k.op == "cmp" and k.a[0] in ("==", "is") and {k.a[1], k.a[2]} == {src, u}:
                return None
        return "is replaced by %s" % (u,)
    if u.op in ("dict", "list", "tuple") and not mentions(u, src):
        return "is replaced by a new %s" % u.op
    if not mentions(u, src):
        return "is replaced by a value that does not depend on it (%s)" % str(u)[:80]
    if u.op in ("bin", "un", "unary", "not", "cmp", "bool", "sub"):
        return "is changed to %s" % str(u)[:80]
    if u.op in ("call", "alloc") and (u.a[0] in NUMBERS or u.a[0] in ("builtins.max", "builtins.min", "builtins.abs", "builtins.round", "numpy.clip")):
        return "is changed to %s" % str(u)[:80]
    return "unknown"


def mentions(t, src):
    return any(x is src for x in walk(t))


def default_kind(f, a):
    d = f.defaults.get(a)
    v = getattr(d, "value", None)
    return type(v) if isinstance(v, (bool, int, float)) else None


def settings(init):
    return [a for a in init.params + init.kwonly if a not in ("self", "cls")]


def final(p, o, a):
    return p.st.heap.get((o, a))


def constructor(ctx, c):
    """-> Supported: settings stored under their own name, other public constants, factors"""
    proj = ctx.proj
    init = proj.method(c, "__init__")
    s = {"settings": set(), "consts": set(), "attrs": set(), "init": init}
    if init is None:
        return s
    me = api.selfterm(c)
    name = c.qual + ".__init__"
    ctx.saw("constructors", name)
    e, paths = api.run(ctx, init, c)
    for p in paths:
        if p.kind != "ret":
            continue
        for (o, a), v in p.st.heap.items():
            if o is me:
                s["attrs"].add(a)
                if is_const(v) and v is not NONE and not a.startswith("_"):
                    s["consts"].add(a)
        for a in settings(init):
            src = mk("param", a)
            ctx.obligation("stores", name + ":" + a)
            v = final(p, me, a)
            if v is None:
                other = next((k for (o, k), x in p.st.heap.items() if o is me and strip(x) is src), None)
                if other is not None:
                    ctx.saw("not_understood", "%s: %s stored as %s" % (name, a, other))
                    continue
            d = carried(e, p, v, src, default_kind(init, a))
            if d is None:
                s["settings"].add(a)
            elif d == "unknown":
                s["settings"].add(a)
                ctx.saw("not_understood", "%s: %s = %s" % (name, a, str(v)[:100]))
            else:
                if v is not None:
                    s["settings"].add(a)
                ctx.violation("stores", name + ":" + a, "the setting %s %s" % (a, d), where(init), api.path_steps(p.events))
    used(ctx, c, s)
    meaning(ctx, c, s)
    return s


def meaning(ctx, c, s):
    me = api.selfterm(c)
    for f in api.train_methods(ctx.proj, c):
        e, paths = api.run(ctx, f, c, loops=1)
        for p in paths:
            for ev in p.events:
                if ev.kind not in ("call", "enter") or not isinstance(ev.d[0], str):
                    continue
                b = ev.d[1]
                if not (isinstance(b, tuple) and b and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in b)):
                    continue
                for q, v in b:
                    if not isinstance(v, T):
                        continue
                    v = strip(v)
                    if v.op != "attr" or v.a[0] is not me or v.a[1] not in s["settings"]:
                        continue
                    ctx.obligation("meaning", "%s.%s:%s(%s)" % (c.qual, f.name, ev.d[0], q))
                    if q in s["settings"] and q != v.a[1]:
                        ctx.violation("meaning", "%s.%s:%s:%s" % (c.qual, f.name, ev.d[0], q), "hands the setting %s to the parameter %s of %s" % (v.a[1], q, ev.d[0]), ev.where, api.path_steps(p.events))


def used(ctx, c, s):
    if not s["settings"]:
        return
    i = c13.attributes(ctx, c)
    for a in sorted(s["settings"]):
        ctx.obligation("used", c.qual + "." + a)
        if a not in i.reads:
            ctx.violation("used", c.qual + "." + a, "the setting %s is stored but neither training nor any query reads it" % a, where(s["init"]))


def nested(proj, p, o, out):
    """model objects reachable from the returned one"""
    if any(x is o for x in out):
        return out
    out.append(o)
    for (b, a), v in p.st.heap.items():
        if b is o and isinstance(v, T):
            v = M.ident(v)
            if v.op == "new" and find(proj, v.a[0]) is not None:
                nested(proj, p, v, out)
    return out


def factory(ctx, f, sup):
    proj = ctx.proj
    e, paths = api.run(ctx, f, None)
    rets = [p for p in paths if p.kind == "ret"]
    objs = [(p, M.ident(p.value)) for p in rets]
    good = [(p, o) for p, o in objs if o.op == "new" and o.a[0] in sup]
    if not good:
        ctx.saw("not_understood", "%s returns no model object" % f.qual)
        return
    ctx.saw("factories", f.qual)
    given = [a for a in f.params + f.kwonly]
    star = f.vararg or f.kwarg
    undecided = set()
    for p, o in good:
        models = [m for m in nested(proj, p, o, []) if m.a[0] in sup]
        for a in given:
            src = mk("param", a)
            hit = False
            for m in models:
                s = sup[m.a[0]]
                if a not in s["settings"]:
                    continue
                hit = True
                ctx.obligation("factory", "%s:%s" % (f.qual, a))
                d = carried(e, p, final(p, m, a), src, default_kind(f, a))
                report(ctx, "factory", "%s:%s" % (f.qual, a), "the setting %s of the %s it returns" % (a, m.a[0]), d, final(p, m, a), where(f), p)
            if not hit:
                ctx.saw("unsupported_settings", "%s: %s not a setting of %s" % (f.qual, a, ", ".join(m.a[0] for m in models)))
        if star:
            rest(ctx, f, p, models, given, sup)
        backend(ctx, f, p, models, undecided)
    if len(undecided) > 1:
        ctx.violation("backend", f.qual, "returns CPU or GPU models without looking at the use_gpu it was given", where(f))


def report(ctx, rule, construct, what, d, v, at, p):
    if d is None:
        return
    if d == "unknown":
        ctx.saw("not_understood", "%s = %s" % (construct, str(v)[:100]))
        return
    ctx.violation(rule, construct, "%s %s" % (what, d), at, api.path_steps(p.events))


def rest(ctx, f, p, models, given, sup):
    """settings the factory takes as *args / **kwargs for the model it wraps"""
    for m in models[1:]:
        s = sup[m.a[0]]
        for a in sorted(s["settings"]):
            if a in given:
                continue
            construct = "%s:%s" % (f.qual, a)
            ctx.obligation("factory", construct)
            v = final(p, m, a)
            u = strip(v) if v is not None else None
            stars = [x for x in walk(v) if x.op == "fromstar"] if v is not None else []
            if stars:
                x = u if u.op == "fromstar" else stars[0]
                if f.vararg and f.kwarg and len(x.a) < 3 and isinstance(x.a[1], int):
                    ctx.violation("factory", construct + ":kwargs", "the keyword setting %s given to %s is not passed on" % (a, f.name), where(f), api.path_steps(p.events))
                continue
            if u is not None and any(y.op == "param" and y.a[0].lstrip("*") in (f.vararg, f.kwarg) for y in walk(u)):
                continue
            if u is not None and u.op in ("popped", "sub"):
                ctx.saw("not_understood", "%s = %s" % (construct, str(u)[:80]))
                continue
            ctx.violation("factory", construct, "the setting %s of the wrapped %s is always %s" % (a, m.a[0], str(u)[:60]), where(f), api.path_steps(p.events))


def backend(ctx, f, p, models, undecided):
    src = mk("param", "use_gpu")
    if "use_gpu" not in f.params + f.kwonly:
        return
    g = None
    for k, v in p.st.facts.items():
        if k.op == "truth" and k.a[0] is src:
            g = v
        elif k is src:
            g = v
    ctx.obligation("backend", f.qual)
    for m in models:
        c = ctx.proj.find_class(m.a[0])
        if c.mod.name.startswith("implicit.ann"):
            continue
        if g is None:
            undecided.add(api.is_gpu(c))
        if g is not None and api.is_gpu(c) != g:
            ctx.violation("backend", f.qual, "returns a %s when use_gpu is %s" % (m.a[0], g), where(f), api.path_steps(p.events))


def conversion(ctx, c, f, sup):
    proj = ctx.proj
    me = api.selfterm(c)
    name = "%s.%s" % (c.qual, f.name)
    e, paths = api.run(ctx, f, c)
    for p in paths:
        if p.kind != "ret":
            continue
        o = M.ident(p.value)
        if o.op != "new" or o.a[0] not in sup:
            ctx.saw("not_understood", name + " returns " + str(o)[:60])
            continue
        ctx.saw("conversions", name)
        d = sup[o.a[0]]
        mine = sup[c.qual]
        dst = proj.find_class(o.a[0])
        want = f.name == "to_gpu"
        if api.is_gpu(dst) != want:
            ctx.violation("convert", name + ":class", "returns a %s" % o.a[0], where(f), api.path_steps(p.events))
        both = (mine["settings"] & d["settings"]) | (mine["consts"] & d["consts"])
        for a in sorted(both):
            construct = "%s:%s" % (name, a)
            ctx.obligation("convert", construct)
            report(ctx, "convert", construct, "the setting %s of the converted model" % a, carried(e, p, final(p, o, a), mk("attr", me, a)), final(p, o, a), where(f), p)
        for a in FACTORS:
            if a not in mine["attrs"] or a not in d["attrs"]:
                continue
            construct = "%s:%s" % (name, a)
            ctx.obligation("convert", construct)
            src = mk("attr", me, a)
            if is_none(p, src) is True:
                continue
            report(ctx, "convert", construct, "%s of the converted model" % a, carried(e, p, final(p, o, a), src), final(p, o, a), where(f), p)


def index(ctx, c):
    """settings that reach the calls building one search index but not another one of the same fit"""
    proj = ctx.proj
    init = proj.method(c, "__init__")
    fit = proj.method(c, "fit")
    if init is None or fit is None or fit.is_abstract or "model" not in init.params:
        return
    me = api.selfterm(c)
    e, paths = api.run(ctx, fit, c, loops=1)
    name = c.qual + ".fit"
    for p in paths:
        if p.kind != "ret":
            continue
        built = {}
        for (o, a), v in p.st.heap.items():
            if o is me and a.endswith("_index") and isinstance(v, T) and v is not NONE and v.op != "attr":
                built[a] = base(M.ident(v))
        if len(built) < 2:
            continue
        reach = {a: set() for a in built}
        for ev in p.events:
            for a, b in built.items():
                terms = []
                if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:") and base(M.ident(ev.d[1][0])) is b:
                    terms = list(flat(ev.d[1][1:]))
                elif ev.kind in ("set", "setattr", "mut") and base(M.ident(ev.d[0])) is b:
                    terms = [x for x in flat(ev.d[1:]) if isinstance(x, T)]
                for t in terms:
                    if isinstance(t, T):
                        reach[a] |= attrs(t, me)
        for a, b in built.items():
            reach[a] |= attrs(b, me)
        pub = set(settings(init))
        every = set().union(*reach.values()) & pub
        for a in sorted(built):
            ctx.obligation("index", "%s:%s" % (name, a))
            for m in sorted(every - reach[a]):
                other = next(k for k in sorted(reach) if m in reach[k])
                ctx.violation("index", "%s:%s:%s" % (name, a, m), "the setting %s is used to build %s but not %s" % (m, other, a), where(fit), api.path_steps(p.events))


def base(t):
    while t.op in ("upd", "inpl", "attr_upd"):
        t = t.a[0]
    return t


def attrs(t, me):
    return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[0] is me}
