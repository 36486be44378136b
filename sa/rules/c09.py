"""C09: a fixed random seed determines every random choice."""
from .. import api
from .. import model as M
from .. import native
from ..terms import NONE, T, cval, is_const, mk, walk
from .c04 import flat
from .c07 import where

MINIMUM = {"entries": 3, "generators": 1}

SEEDED = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64",
          "numpy.random.PCG64DXSM", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64", "random.Random",
          "implicit.gpu.RandomState", "implicit.gpu._cuda.RandomState"}
ENGINES = ("mt19937", "mt19937_64", "minstd_rand", "minstd_rand0", "ranlux24", "ranlux48", "knuth_b", "default_random_engine")
GLOBAL = ("numpy.random.", "random.", "secrets.", "uuid.")
GLOBAL_EXACT = {"os.urandom", "os.getpid", "libc.stdlib.rand", "libc.stdlib.random", "libc.stdlib.drand48", "rand", "random_device", "drand48", "lrand48",
                "scipy.sparse.random", "scipy.sparse.rand", "builtins.id"}
CLOCK = ("time.", "datetime.")
THREAD = ("cython.parallel.threadid", "openmp.omp_get_thread_num", "omp_get_thread_num")


def check(ctx):
    proj = ctx.proj
    ctx.rule("no-global", "no value used in training or splitting comes from a global or operating-system random source")
    ctx.rule("seeded", "every generator is built from the caller's random_state, except where random_state is known to be None")
    ctx.rule("accepts", "a numpy RandomState is converted before it is handed to default_rng, which does not take one")
    ctx.rule("per-thread-seed", "each per-thread generator takes its own seed, drawn from the generator built from random_state")
    ctx.rule("per-thread-use", "inside a parallel region a per-thread generator is selected by the calling thread's own number")
    ctx.rule("static", "a parallel loop that draws random numbers assigns iterations to threads statically")
    ctx.assume("numpy generators and std::mt19937 are deterministic functions of their seed; thread interleaving of BPR's lock-free updates is outside this property")
    for c in api.model_classes(proj):
        for f in api.train_methods(proj, c):
            entry(ctx, "%s.%s" % (c.qual, f.name), f, c)
        init = proj.method(c, "__init__")
        if init is not None and "random_state" in init.params:
            stored(ctx, c, init)
    for f in proj.all_funcs():
        if f.cls is None and not f.name.startswith("_") and "random_state" in f.params and f.mod.name == "implicit.evaluation":
            entry(ctx, f.qual, f, None)
    holders(ctx)


def stored(ctx, c, init):
    construct = c.qual + ".__init__"
    e, paths = api.run(ctx, init, c)
    ctx.obligation("seeded", construct)
    for p in paths:
        if p.kind != "ret" or state_none(e, p):
            continue
        for ev in p.events:
            if ev.kind == "set" and ev.d[1] == "random_state" and not from_state(ev.d[2]):
                ctx.violation("seeded", construct, "stores %s as the seed although the caller may have given one (0 included)" % str(ev.d[2])[:80], ev.where, api.path_steps(p.events))


def is_state(t):
    """the caller's random_state itself"""
    return t.op == "param" and t.a[-1] == "random_state" or t.op == "attr" and t.a[1] == "random_state"


def from_state(t):
    return any(is_state(x) for x in walk(t))


def state_none(e, p):
    for k, v in p.st.facts.items():
        if k.op == "isnone" and is_state(k.a[0]) and v:
            return True
        if k.op == "cmp" and len(k.a) == 3 and k.a[0] == "is" and v and (is_state(k.a[1]) and k.a[2] is NONE or is_state(k.a[2]) and k.a[1] is NONE):
            return True
    return False


def calls_in(p):
    """every call of the path with its arguments: as an event, or inside any value"""
    seen = set()
    src = []
    for ev in p.events:
        if ev.kind in ("enter", "exit"):
            continue
        for x in flat(ev.d):
            src.append((x, ev))
    if p.value is not None and p.kind == "ret":
        src.append((p.value, None))
    for k in p.st.facts:
        src.append((k, None))
    for x, ev in src:
        if x in seen:
            continue
        for t in walk(x):
            if t in seen:
                continue
            seen.add(t)
            if t.op in ("call", "alloc") and isinstance(t.a[0], str):
                yield t.a[0], t, ev


def clock_in(t):
    return any(x.op in ("call", "alloc", "neutral") and isinstance(x.a[0], str) and x.a[0].startswith(CLOCK) for x in walk(t))


def global_source(d):
    if d in SEEDED:
        return False
    if d in GLOBAL_EXACT:
        return True
    return d.startswith(GLOBAL) and d.rsplit(".", 1)[-1][:1].islower()


def args_of(t):
    return list(t.a[1]) + [v for _, v in t.a[2]] if len(t.a) >= 3 else list(t.a[1])


def entry(ctx, construct, f, cls):
    e, paths = api.run(ctx, f, cls, loops=1)
    ctx.saw("entries", construct)
    raw = conv = False
    used = False
    for p in paths:
        if p.kind != "ret":
            continue
        none = state_none(e, p)
        for d, t, ev in calls_in(p):
            at = ev.where if ev is not None else where(f)
            if global_source(d):
                ctx.violation("no-global", construct + ":" + d, "draws from %s, which no seed of the caller controls" % d, at, api.path_steps(p.events))
            elif d in SEEDED or d.rsplit(".", 1)[-1] in ENGINES or d.rsplit(".", 1)[-1] == "RandomState":
                used = True
                ctx.saw("generators", "%s: %s" % (construct, d))
                args = [a for a in args_of(t) if a.op != "nth"]
                ctx.obligation("seeded", construct)
                if d.rsplit(".", 1)[-1] in ENGINES:
                    thread_seed(ctx, construct, d, args, p, at, none)
                    continue
                if none:
                    continue
                if not any(from_state(a) for a in args):
                    ctx.violation("seeded", construct + ":" + d, "%s(%s) is not built from the caller's random_state, on a path where one may have been given (0 included)"
                                  % (d, ", ".join(str(a)[:60] for a in args)), at, api.path_steps(p.events))
                    continue
                if any(clock_in(a) for a in args):
                    ctx.violation("seeded", construct + ":clock", "%s is seeded from the clock although a seed was given" % d, at, api.path_steps(p.events))
                for a in args:
                    if hashed(a):
                        ctx.violation("seeded", construct + ":hash", "%s is seeded from a hash or object identity of random_state" % d, at, api.path_steps(p.events))
                if d == "numpy.random.default_rng" and args:
                    if is_state(args[0]):
                        raw = raw or (d, at)
                    else:
                        conv = True
        if not none:
            for ev in p.events:
                if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("implicit.") and any(
                        isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[0], str) and ("seed" in kv[0] or kv[0] == "random_state")
                        and isinstance(kv[1], T) and clock_in(kv[1]) for kv in (ev.d[1] if isinstance(ev.d[1], tuple) else ())):
                    ctx.violation("seeded", construct + ":clock", "%s is given a time value although a seed may have been given" % ev.d[0], ev.where, api.path_steps(p.events))
    if raw:
        ctx.obligation("accepts", construct)
        if not conv:
            ctx.violation("accepts", construct + ":RandomState", "default_rng is only ever given random_state itself, so a numpy RandomState is not accepted", raw[1])
    if used:
        ctx.obligation("no-global", construct)


def hashed(a):
    return any(x.op == "call" and x.a[0] in ("builtins.hash", "builtins.id") for x in walk(a))


def thread_seed(ctx, construct, d, args, p, at, none):
    ctx.obligation("per-thread-seed", construct)
    if not args:
        ctx.violation("per-thread-seed", construct + ":" + d, "a per-thread generator is built without a seed", at, api.path_steps(p.events))
        return
    a = args[0]
    if not from_state(a) and not none:
        ctx.violation("per-thread-seed", construct + ":" + d, "a per-thread generator is seeded with %s, not with a value drawn from the generator built from random_state"
                      % str(a)[:120], at, api.path_steps(p.events))
        return
    if clock_in(a) and not none:
        ctx.violation("per-thread-seed", construct + ":clock", "a per-thread generator is seeded from the clock", at, api.path_steps(p.events))
        return
    if not any(x.op == "lv" for x in walk(a)) and not any(x.op == "meth" and any(y.op == "nth" for y in x.a[2]) for x in walk(a) if len(x.a) > 2 and isinstance(x.a[2], tuple)):
        inside = any(ev.kind == "loop" for ev in p.events)
        if inside and a.op != "iterval":
            ctx.violation("per-thread-seed", construct + ":same", "every per-thread generator is given the same seed %s" % str(a)[:120], at, api.path_steps(p.events))


# -- the native side

def rng_classes(proj):
    out = []
    for m in proj.modules.values():
        for k in m.classes.values():
            if k.is_cclass and any(any(x in str(t) for x in ENGINES) for t in k.fields.values()):
                out.append(k)
    return out


def is_thread_id(proj, t):
    for x in walk(t):
        if x.op == "call" and isinstance(x.a[0], str):
            if x.a[0] in THREAD or x.a[0].rsplit(".", 1)[-1] in ("threadid", "omp_get_thread_num"):
                return True
            n = x.a[0].rsplit(".", 1)[-1]
            if "thread" in n and ("num" in n or "id" in n) and "num_threads" not in n and "max" not in n:
                return True
    return False


def rng_fields(k):
    return [n for n, t in k.fields.items() if any(x in str(t) for x in ENGINES)]


def holders(ctx):
    proj = ctx.proj
    classes = rng_classes(proj)
    draw = {}                                   # (class name, method) -> parameters that select the generator
    for k in classes:
        fields = rng_fields(k)
        for f in k.methods.values():
            if f.name.startswith("__"):
                continue
            e, paths = native.run(ctx, f, k)
            for p in paths:
                for ev in p.events:
                    for x in flat(ev.d):
                        for t in walk(x):
                            if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] in fields:
                                sel = t.a[1]
                                ctx.saw("holder methods", "%s.%s" % (k.qual, f.name))
                                ps = {y.a[-1] for y in walk(sel) if y.op == "param"}
                                if is_thread_id(proj, sel):
                                    continue
                                if not ps:
                                    ctx.violation("per-thread-use", "%s.%s" % (k.qual, f.name), "always draws from generator %s, whichever thread asks" % sel, where(f))
                                else:
                                    draw.setdefault((k.name, f.name), set()).update(f.params.index(y) - 1 for y in ps if y in f.params)
    for f in native.kernels(proj):
        if not f.is_kernel:
            continue
        e, paths = native.run(ctx, f)
        kernel(ctx, f, e, paths, classes, draw)


def kernel(ctx, f, e, paths, classes, draw):
    proj = ctx.proj
    names = {m for _, m in draw}
    fields = {n for k in classes for n in rng_fields(k)}
    for p in paths:
        region = []                             # open parallel regions
        loops = []
        sched = None
        ids = {}                                # thread id value -> taken inside a region
        for ev in p.events:
            if ev.kind == "with" and "parallel" in str(ev.d[0])[:40]:
                region.append(ev)
            elif ev.kind == "endwith" and "parallel" in str(ev.d[0])[:40]:
                region and region.pop()
            elif ev.kind == "prange":
                sched = dict(ev.d[0]).get("schedule")
            elif ev.kind == "loop":
                par = ev.d[1].op == "range" and ev.d[1].a[3] == "par"
                loops.append((ev, par, sched if par else None))
                if par:
                    sched = None
            elif ev.kind == "loopend":
                loops and loops.pop()
            elif ev.kind == "call":
                if not isinstance(ev.d[0], str):
                    continue
                res = ev.d[2] if len(ev.d) > 2 else None
                if res is not None and res.op == "call" and is_thread_id(proj, res):
                    ids[res] = bool(region) or any(par for _, par, _ in loops)
                inside = bool(region) or any(par for _, par, _ in loops)
                if ev.d[0].startswith("method:") and ev.d[0][7:] in names and inside:
                    recv, args = ev.d[1][0], ev.d[1][1]
                    selectors = [args[i] for (k, m), idx in draw.items() if m == ev.d[0][7:] for i in idx if i < len(args)]
                    drawn(ctx, f, p, ev, selectors, ids, loops)
            if ev.kind in ("call", "callv", "mut", "set"):
                inside = bool(region) or any(par for _, par, _ in loops)
                if inside:
                    for x in flat(ev.d):
                        for t in walk(x):
                            if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] in fields and ev.kind in ("call", "callv"):
                                drawn(ctx, f, p, ev, [t.a[1]], ids, loops)


def drawn(ctx, f, p, ev, selectors, ids, loops):
    ctx.count("thread_draws")
    ctx.obligation("per-thread-use", f.qual)
    ctx.obligation("static", f.qual)
    for s in selectors:
        if not is_thread_id(ctx.proj, s):
            if any(x.op == "param" or x.op == "unknown" for x in walk(s)) and not is_const(s) and not any(x.op == "lv" for x in walk(s)) and not selectable(s):
                ctx.saw("not_understood", "%s: %s" % (f.qual, s))
                continue
            ctx.violation("per-thread-use", f.qual + ":selector", "draws from generator %s instead of the calling thread's own" % s, ev.where, api.path_steps(p.events))
            continue
        for t in walk(s):
            if t in ids and not ids[t]:
                ctx.violation("per-thread-use", f.qual + ":outside", "the thread number %s is taken outside the parallel region, so every thread uses the same generator" % t,
                              ev.where, api.path_steps(p.events))
    for _, par, sched in loops:
        if par and sched is not None and is_const(sched) and cval(sched) in ("dynamic", "guided", "runtime", "auto"):
            ctx.violation("static", f.qual + ":schedule", "random numbers are drawn inside a parallel loop with schedule=%r, so which thread draws for which iteration varies"
                          % cval(sched), ev.where, api.path_steps(p.events))


def selectable(s):
    return all(is_const(x) or x.op in ("bin", "un", "cast") for x in walk(s))


__all__ = ["check", "MINIMUM", "M", "mk"]
