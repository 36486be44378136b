"""C02: arguments supplied by the caller are never modified."""
from .. import api
from .. import effects
from .. import model as M

MINIMUM = {"entries": 30}
# functions whose documented purpose is to update an argument
OUTPUTS = {"least_squares": {"X"}, "least_squares_cg": {"X"}, "topk_batch": {"indices", "distances"}}


def public_functions(proj):
    out = []
    for m in proj.modules.values():
        if m.name.startswith("implicit.gpu._") or ".tests" in m.name or m.name.startswith("implicit.native"):
            continue
        for f in m.funcs.values():
            if f.name.startswith("_"):
                continue
            out.append((f, None))
        for c in m.classes.values():
            if c.name.startswith("_"):
                continue
            for n, f in sorted(c.methods.items()):
                if n.startswith("_") and n not in ("__init__", "__cinit__", "__setstate__", "__call__"):
                    continue
                if f.is_abstract:
                    continue
                out.append((f, c))
    return out


def raw_kernel(f):
    """a native routine with declared buffer arguments: not part of the public interface"""
    return bool(f.argtypes) and any("[" in str(t) or "*" in str(t) for t in f.argtypes.values()) and f.cls is None


def check(ctx):
    proj = ctx.proj
    ctx.rule("no-argument-write", "on no path through a public function or method does a write reach memory of a parameter: neither the object "
             "itself nor an array it shares with one (views, tocsr/tocoo of a matrix already in that format, sparse constructors without copy)")
    ctx.assume("scipy.sparse format conversions to a different format copy; conversions to the same format return the same object; sparse "
               "constructors share the arrays of a matrix in the same format")
    entries = list(public_functions(proj))
    for c in api.model_classes(proj):
        for n, f in api.all_methods(proj, c).items():
            if f.cls is not c and not n.startswith("_") and not f.is_abstract:
                entries.append((f, c))
    for f, c in entries:
        if raw_kernel(f):
            ctx.note("native routine with declared output buffers, not public: " + f.qual)
            continue
        ctx.saw("entries", (c.qual + "::" if c else "") + f.qual)
        if not [p for p in f.params + f.kwonly if p not in ("self", "cls")]:
            continue
        ctx.obligation("no-argument-write", (c.qual + "::" if c else "") + f.qual)
        kw = {}
        if f.is_kernel:
            kw = dict(inline_kernels=True, loops=1)
        if f.name == "least_squares" or f.name == "least_squares_cg":
            kw["opaque"] = ()
        e, paths = api.run(ctx, f, c, **kw)
        allowed = OUTPUTS.get(f.name, set())
        for p in paths:
            for i, ev, o, names, how, val in effects.writes(e, p):
                if o.op != "param" or o.a[0].startswith("*") or o.a[0] in allowed:
                    continue
                if f.name == "__setstate__" and ev.kind == "set":
                    continue
                ctx.violation("no-argument-write", "%s:%s" % (f.qual, o.a[0]), "%s %s%s, which belongs to the caller" % (
                    how, o.a[0], "".join("." + n for n in names)), ev.where, api.path_steps(p.events))
