"""The public surface of the analysed package, found from the class hierarchy, and shared analysis runs."""
from .engine import Engine
from .project import AnalysisBroken
from .terms import mk
from . import model as M

BASE = "implicit.recommender_base.RecommenderBase"
SOLVERS = {"implicit.cpu.als.least_squares", "implicit.cpu.als.least_squares_cg"}
TRAIN_NAMES = ("fit", "partial_fit_users", "partial_fit_items")
STATE_NAMES = ("__init__", "__setstate__", "load")
DUNDER_QUERIES = ("__getstate__", "__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__")


def model_classes(proj):
    out = []
    for c in proj.subclasses(BASE):
        if c.qual == BASE:
            continue
        # intermediate bases are analysed through their concrete subclasses
        if any(c is not d and c in proj.mro(d) for d in proj.subclasses(BASE)) and not concrete(proj, c):
            continue
        out.append(c)
    if len(out) < 8:
        raise AnalysisBroken("only %d model classes found" % len(out))
    return sorted(out, key=lambda c: c.qual)


def concrete(proj, c):
    f = proj.method(c, "fit")
    return f is not None and not f.is_abstract


def is_gpu(c):
    return c.mod.name.startswith("implicit.gpu")


def all_methods(proj, c):
    out = {}
    for k in reversed(proj.mro(c)):
        out.update(k.methods)
    return out


def is_train(name):
    return name.startswith(("fit", "partial_fit"))


def train_methods(proj, c):
    return [f for n, f in sorted(all_methods(proj, c).items()) if is_train(n) and not f.is_abstract]


def query_methods(proj, c):
    """everything callable on a fitted model that is not training, construction or state restoring"""
    out = []
    for n, f in sorted(all_methods(proj, c).items()):
        if is_train(n) or n in STATE_NAMES or f.is_abstract:
            continue
        if n.startswith("_") and n not in DUNDER_QUERIES:
            continue
        out.append(f)
    return out


def run(ctx, func, cls=None, **kw):
    """analyse one entry point and account for it"""
    opts = {k: kw.pop(k) for k in ("opaque", "inline_kernels", "loops", "budget", "max_depth", "zero_iter", "unroll", "hook", "traced") if k in kw}
    opts.setdefault("opaque", SOLVERS)
    opts["opaque"] = set(opts["opaque"])
    if ctx.thorough:
        opts.setdefault("budget", 400000)
    e = Engine(ctx.proj, **opts)
    paths = e.run(func, cls, **kw)
    name = (cls.qual + "::" if cls else "") + func.qual
    ctx.saw("functions", name)
    for q in e.inlined:
        ctx.saw("functions", q)
    ctx.count("paths", len(paths))
    if e.truncated:
        ctx.saw("truncated", name)
    for u in e.unknown:
        ctx.saw("unmodelled", u)
    return e, paths


def selfterm(cls):
    return mk("self", cls.qual)


def sattr(cls, a):
    return mk("attr", selfterm(cls), a)


def path_steps(events, limit=40):
    out = []
    for e in events:
        if e.kind in ("iter", "loop", "loopend", "exit", "try"):
            continue
        out.append("%s %s %s" % (e.where, e.kind, ", ".join(str(x)[:120] for x in e.d[:3])))
    return out[-limit:]


ident = M.ident
