"""C13: what save / pickling writes and what load / unpickling reads back are the same learned state and settings."""
from .. import api
from .. import model as M
from ..terms import NONE, T, cval, is_const, kids, mk, rewrite, walk
from .c04 import flat
from .c07 import where

MINIMUM = {"saves": 1}
SAVERS = {"numpy.savez", "numpy.savez_compressed"}


def check(ctx):
    proj = ctx.proj
    ctx.rule("saved", "every attribute that training or queries read, and that the constructor sets from a setting or training learns, is written by save under its own name (or rebuilt by load from what is written)")
    ctx.rule("filter", "entries are only left out of the file when their value is None or a random generator object")
    ctx.rule("loadable", "nothing is written that numpy can only store as a pickled object, since load does not unpickle")
    ctx.rule("restored", "load sets every stored entry on a new object of the class it was called on, with the stored value")
    ctx.rule("path", "load looks for the file where save wrote it, including the .npz suffix numpy adds")
    ctx.rule("pickled", "attributes that pickling leaves out or converts are set again when unpickling")
    ctx.assume("numpy.savez stores arrays, numbers, booleans and strings exactly; pickle restores every attribute a model does not leave out")
    for c in api.model_classes(proj):
        info = attributes(ctx, c)
        sv, ld = proj.method(c, "save"), proj.method(c, "load")
        if sv is not None and ld is not None and not sv.is_abstract and not ld.is_abstract:
            files(ctx, c, sv, ld, info)
        pickling(ctx, c, info)


class Info:
    pass


def attributes(ctx, c):
    """which attributes matter: settings (constructor) and learned state that training or queries read"""
    proj = ctx.proj
    me = api.selfterm(c)
    i = Info()
    i.me = me
    i.init = {}
    i.none = set()
    init = proj.method(c, "__init__")
    if init is not None:
        e, paths = api.run(ctx, init, c)
        for p in paths:
            if p.kind != "ret":
                continue
            for ev in p.events:
                if ev.kind == "set" and ev.d[0] is me:
                    i.init[ev.d[1]] = ev.d[2]
                    if ev.d[2] is NONE or defaults_to_none(init, ev.d[2]):
                        i.none.add(ev.d[1])
    learned, reads = set(), set()
    i.caches = set()
    for f in api.train_methods(proj, c):
        e, paths = api.run(ctx, f, c, loops=1)
        for p in paths:
            collect(p, me, reads)
            for ev in p.events:
                if ev.kind == "set" and ev.d[0] is me and ev.d[2] is not NONE:
                    learned.add(ev.d[1])
                elif ev.kind == "mut":
                    for r in M.roots(e, ev.d[0], p.st):
                        if r.op == "attr" and r.a[0] is me:
                            learned.add(r.a[1])
    for f in api.query_methods(proj, c):
        if f.name in ("save", "to_gpu", "to_cpu") or f.name.startswith("__"):
            continue
        e, paths = api.run(ctx, f, c, loops=1)
        for p in paths:
            collect(p, me, reads)
            for ev in p.events:
                if ev.kind == "set" and ev.d[0] is me:
                    i.caches.add(ev.d[1])
    i.learned = learned - i.caches
    i.settings = {a for a, v in i.init.items() if v is not NONE and a not in i.caches}
    i.needed = (i.learned | i.settings) & reads
    i.reads = reads
    return i


def defaults_to_none(init, v):
    if v.op == "param" and v.a[0] in init.defaults:
        d = init.defaults[v.a[0]]
        return getattr(d, "value", 1) is None
    return False


def collect(p, me, reads):
    seen = set()
    src = [x for ev in p.events for x in flat(ev.d)] + list(p.st.facts) + ([p.value] if isinstance(p.value, T) else [])
    for x in src:
        for t in walk(x, seen):
            if t.op == "attr" and t.a[0] is me:
                reads.add(t.a[1])


# -- save / load

class Saved:
    def __init__(self):
        self.keys = {}
        self.rest = None            # excluded names, when everything else is written
        self.maybe = False
        self.understood = True
        self.file = None
        self.where = ""


def dict_all(t, me):
    """names left out of {k: v for k, v in self.__dict__.items() if k not in (...)}; None when it is something else"""
    t = M.ident(t)
    if t.op == "call" and t.a[0] == "builtins.vars" and t.a[1] and t.a[1][0] is me or t.op == "attr" and t.a[0] is me and t.a[1] == "__dict__":
        return set()
    if t.op == "meth" and t.a[1] == "copy":
        return dict_all(t.a[0], me)
    if t.op != "comp" or t.a[0] != "dict":
        return None
    gens = t.a[2]
    if len(gens) != 1 and not isinstance(gens[0], tuple):
        return None
    g = gens[0] if isinstance(gens[0], tuple) else gens
    src, conds = g[0], g[1]
    if not (src.op == "meth" and src.a[1] == "items" and dict_all(src.a[0], me) == set()):
        return None
    el = g[2] if len(g) > 2 else None
    key, val = t.a[1]
    if not (key.op == "sub" and val.op == "sub" and key.a[0] is val.a[0] and is_const(key.a[1]) and cval(key.a[1]) == 0 and is_const(val.a[1]) and cval(val.a[1]) == 1):
        return None
    out = set()
    for c in flat(conds):
        ex = excluded(c, key, el)
        if ex is None:
            return None
        out = out | ex
    return out


class Except:
    """every name but these"""

    def __init__(self, keep):
        self.keep = set(keep)

    def __contains__(self, a):
        return a not in self.keep

    def add(self, a):
        self.keep.discard(a)

    def __or__(self, other):
        return Except(self.keep & other.keep) if isinstance(other, Except) else Except(self.keep - other)

    __ror__ = __or__


def excluded(c, key, el):
    while c.op == "truth":
        c = c.a[0]
    neg = False
    while c.op == "un" and c.a[0] == "not":
        neg = not neg
        c = c.a[1]
    if c.op == "cmp" and c.a[1] is key:
        o, b = c.a[0], c.a[2]
        if o == "notin" and not neg or o == "in" and neg:
            return consts(b)
        if o == "in" and not neg or o == "notin" and neg:
            keep = consts(b)
            return None if keep is None else Except(keep)
        if o == "!=" and is_const(b) and not neg or o == "==" and is_const(b) and neg:
            return {cval(b)}
    if c.op == "bool" and c.a[0] == "and" and not neg:
        out = set()
        for x in kids(c):
            e = excluded(x, key, el)
            if e is None:
                return None
            out = out | e
        return out
    return None


def consts(b):
    xs = b.a[0] if b.op in ("tuple", "list", "set") else None
    if xs is None and is_const(b) and isinstance(cval(b), (tuple, frozenset)):
        return set(cval(b))
    if xs is None or not all(is_const(x) for x in xs):
        return None
    return {cval(x) for x in xs}


def read_save(ctx, c, e, p, me):
    s = Saved()
    call = [ev for ev in p.events if ev.kind == "call" and ev.d[0] in SAVERS]
    if len(call) != 1:
        return None
    ev = call[0]
    s.where = ev.where
    args, kws = ev.d[1]
    s.file = args[0] if args else None
    for k, v in kws:
        if k == "**maybe":
            s.maybe = True
        elif k == "**":
            o = M.ident(v)
            ex = dict_all(o, me)
            c_ = p.st.heap.get((o, "{}"))
            if ex is None:
                s.understood = False
                continue
            s.rest = ex
            del c_
            for u in p.events:
                if u.kind == "mut" and M.ident(u.d[0]) is o:
                    if u.d[1] == ".update":
                        for a in (u.d[3].a[2] if u.d[3].op == "meth" else ()):
                            d = p.st.heap.get((M.ident(a), "{}"))
                            if d is None:
                                s.understood = False
                            else:
                                for kk, x in d.a[0]:
                                    if is_const(kk):
                                        s.keys[cval(kk)] = x
                        for kk, x in (u.d[3].a[3] if u.d[3].op == "meth" else ()):
                            s.keys[kk] = x
                    elif u.d[1] == "setitem" and is_const(u.d[2]):
                        s.keys[cval(u.d[2])] = u.d[3]
                    elif u.d[1] in ("delitem", ".pop") and is_const(u.d[2]):
                        s.rest.add(cval(u.d[2]))
        else:
            s.keys[k] = v
    return s


def files(ctx, c, sv, ld, info):
    me = info.me
    name = c.qual
    e, paths = api.run(ctx, sv, c)
    rets = [p for p in paths if p.kind == "ret"]
    if not rets:
        return                                  # saving is not supported
    saved = [(p, read_save(ctx, c, e, p, me)) for p in rets]
    if any(s is None for _, s in saved):
        if not any(s for _, s in saved):
            ctx.saw("not_understood", name + ".save: no numpy.savez call")
            return
        bad = next(p for p, s in saved if s is None)
        ctx.violation("saved", name + ".save:nothing", "save can return without writing anything", where(sv), api.path_steps(bad.events))
        saved = [(p, s) for p, s in saved if s is not None]
    if any(not s.understood for _, s in saved):
        ctx.saw("not_understood", name + ".save")
        return
    ctx.saw("saves", name)
    le, lpaths = api.run(ctx, ld, c, loops=1)
    explicit = read_load(ctx, c, ld, le, lpaths, info, saved)
    if explicit is None:
        ctx.saw("not_understood", name + ".load")
        explicit = set(info.needed)
    else:
        ctx.saw("loads", name)
    for p, s in saved:
        for a in sorted(info.needed):
            ctx.obligation("saved", "%s.%s" % (name, a))
            if a in s.keys:
                v = s.keys[a]
                if not any(x.op == "attr" and x.a[0] is me and x.a[1] == a for x in walk(v)) and not (v is NONE and known_none(e, p, me, a)):
                    ctx.violation("saved", "%s.save:%s:wrong" % (name, a), "writes %s under the name %r" % (str(v)[:80], a), s.where, api.path_steps(p.events))
                elif lossy(v, mk("attr", me, a)):
                    ctx.violation("saved", "%s.save:%s:lossy" % (name, a), "writes %s instead of %s itself" % (str(v)[:80], a), s.where, api.path_steps(p.events))
                continue
            if s.rest is not None and a not in s.rest:
                continue
            if a in explicit:
                continue
            if known_none(e, p, me, a) or a not in info.settings and all_learned_none(e, p, me, info):
                continue
            what = "a constructor setting" if a in info.settings else "learned state"
            ctx.violation("saved", "%s.save:%s" % (name, a), "%s (%s) is not written by save, so a loaded model has the default instead" % (a, what), s.where, api.path_steps(p.events))
        filters(ctx, c, name, e, p, s, info)
        loadable(ctx, c, name, e, p, s, info)


LOSSY = {"astype", "round", "clip", "min", "max", "sum", "mean", "T", "transpose", "ravel", "flatten"}


def lossy(v, attr):
    """the value passes through something that changes numbers, shape or precision"""
    while v is not attr:
        if v.op == "meth" and v.a[1] in LOSSY or v.op == "attr" and v.a[1] in ("T", "real", "kind", "itemsize", "size", "ndim", "shape", "alignment"):
            return True
        if v.op in ("call", "alloc") and v.a[0] in ("numpy.float32", "numpy.float16", "numpy.round", "numpy.around", "builtins.round", "numpy.transpose"):
            return True
        if v.op in ("call", "alloc") and any(k == "dtype" for k, _ in v.a[2]):
            return True
        if v.op == "bin" or v.op == "sub" and attr is not None:
            return True
        ks = kids(v)
        if not ks or v.op not in ("meth", "call", "alloc", "attr", "cast", "inpl", "upd"):
            return False
        v = ks[0]
    return False


def whole_numbers(v, p):
    """every entry is made an integer, whatever it holds"""
    if v.op not in ("call", "alloc") or v.a[0] not in ("builtins.int", "builtins.bool", "numpy.int32", "numpy.int64"):
        return False
    return not any(k.op in ("isinst", "cmp") and any(x.op == "attr" and x.a[1] in ("dtype", "kind") or x.op == "isinst" for x in walk(k)) for k in p.st.facts)


def known_none(e, p, me, a):
    t = mk("attr", me, a)
    for k, v in p.st.facts.items():
        if k.op == "isnone" and k.a[0] is t and v is True:
            return True
        if k.op == "isinst" and v is True and generator_types(k.a[1]):
            x = k.a[0]
            while x is not t and x.op in ("attr", "meth", "cast") and isinstance(x.a[0], T):
                x = x.a[0]
            if x is t:
                return True
    return False


def all_learned_none(e, p, me, info):
    return any(known_none(e, p, me, a) for a in info.learned)


def generator_types(t):
    return {x.a[0].rsplit(".", 1)[-1] for x in walk(t) if x.op in ("glob", "class", "call") and isinstance(x.a[0], str)} & {"RandomState", "Generator"}


def filters(ctx, c, name, e, p, s, info):
    for ev in p.events:
        if ev.kind != "filter":
            continue
        el, cond = ev.d[0], ev.d[1]
        if el.op != "tuple" or len(el.a[0]) != 2 or not is_const(el.a[0][0]):
            continue
        key, val = cval(el.a[0][0]), el.a[0][1]
        if key not in info.needed:
            continue
        ctx.obligation("filter", "%s.%s" % (name, key))
        x = cond
        while x.op == "truth":
            x = x.a[0]
        if x is val or x.op == "call" and x.a[0] in ("builtins.bool", "numpy.any", "numpy.all", "builtins.len", "numpy.size", "builtins.any") and any(y is val for z in x.a[1] for y in walk(z)):
            ctx.violation("filter", "%s.save:%s" % (name, key), "%s is left out of the file whenever it is zero, empty or False" % key, ev.where, api.path_steps(p.events))


def loadable(ctx, c, name, e, p, s, info):
    """values numpy would have to pickle"""
    filt = {}
    for ev in p.events:
        if ev.kind == "filter" and ev.d[0].op == "tuple" and is_const(ev.d[0].a[0][0]):
            filt.setdefault(cval(ev.d[0].a[0][0]), []).append(ev.d[1])
    keys = dict(s.keys)
    if s.rest is not None:
        for a in info.init:
            if a not in s.rest and a not in keys:
                keys[a] = mk("attr", info.me, a)
    for a, v in sorted(keys.items()):
        ctx.obligation("loadable", "%s.%s" % (name, a))
        if v.op != "attr" or v.a[0] is not info.me:
            continue
        src = v.a[1]
        conds = filt.get(a, [])
        iv = info.init.get(src)
        if iv is None:
            continue
        if src in info.none and not known_not_none(p, v) and not any(mentions_none(x) for x in conds) and not (a not in s.keys and src in info.learned):
            if not s.maybe or not conds or all(understood(x) for x in conds):
                ctx.violation("loadable", "%s.save:%s:none" % (name, a), "%s may be None, which is written as a pickled object that load refuses to read" % a, s.where, api.path_steps(p.events))
        if src == "random_state" and conds and not all({"RandomState", "Generator"} <= generators(conds) for _ in (0,)) and any(mentions_none(x) for x in conds):
            if all(understood(x) for x in conds):
                ctx.violation("loadable", "%s.save:%s:generator" % (name, a), "a random generator given as random_state is written as a pickled object that load refuses to read", s.where, api.path_steps(p.events))
        if iv.op in ("call", "alloc") and iv.a[0] == "numpy.dtype":
            ctx.violation("loadable", "%s.save:%s:dtype" % (name, a), "%s is written as a dtype object, which load refuses to read" % a, s.where, api.path_steps(p.events))


def understood(x):
    return all(t.op in ("un", "isinst", "isnone", "tuple", "glob", "attr", "call", "truth", "const", "self", "class", "cmp", "bool", "list") for t in walk(x))


def generators(conds):
    out = set()
    for x in conds:
        out |= generator_types(x)
    return out


def known_not_none(p, v):
    return any(k.op == "isnone" and k.a[0] is v and val is False or k.op == "isinst" and k.a[0] is v and val is (not mentions_none(k.a[1])) for k, val in p.st.facts.items())


def mentions_none(x):
    for t in walk(x):
        if t is NONE or t.op == "isnone":
            return True
        if t.op == "glob" and t.a[0].endswith("NoneType"):
            return True
    return False


def is_data(t):
    """the opened archive"""
    if t.op == "enter":
        t = t.a[0]
    return t.op in ("call", "alloc") and t.a[0] == "numpy.load"


def data_of(t):
    return [x for x in walk(t) if is_data(x)]


def read_load(ctx, c, ld, e, paths, info, saved):
    """checks load; -> names rebuilt explicitly, or None when load is not understood"""
    name = c.qual + ".load"
    explicit = {}
    dropped = {}
    generic = False
    rets = [p for p in paths if p.kind == "ret"]
    if not rets or not any(ev.kind == "call" and ev.d[0] == "numpy.load" for p in rets for ev in p.events):
        return None
    ctx.obligation("restored", name)
    ctx.obligation("path", name)
    convert = False
    suffixed = [loaded_name(p) for p in rets]
    if not any(x is not None and x.op != "param" for x in suffixed) and any(s.file is not None and s.file.op == "param" for _, s in saved) \
            and not any(p.kind == "exc" and any(ends(k, x) for k in p.st.facts for x in suffixed if x is not None) for p in paths):
        ctx.violation("path", name, "opens the given name as it is, but numpy.savez stores a name without .npz suffix under name.npz", where(ld))
    for p in rets:
        obj = M.ident(p.value)
        if any(ev.kind == "setdyn" and M.ident(ev.d[0]) is not obj for ev in p.events) or obj.op != "new":
            return None                         # loads another model and converts it
    merged = {}
    for _, s in saved:
        merged.update(s.keys)
    for p in rets:
        loads = [ev for ev in p.events if ev.kind == "call" and ev.d[0] == "numpy.load"]
        if not loads:
            ctx.violation("restored", name + ":nothing", "returns a model without reading the file", where(ld), api.path_steps(p.events))
            continue
        suffix(ctx, name, ld, p, loads[0], saved)
        obj = M.ident(p.value)
        if obj.op == "new" and obj.a[0] != c.qual:
            ctx.violation("restored", name + ":class", "returns a %s although it was called on %s" % (obj.a[0], c.qual), where(ld), api.path_steps(p.events))
        it = [ev for ev in p.events if ev.kind == "iter"]
        done = False
        inside = False
        sids = set()
        for ev in p.events:
            if ev.kind == "loop":
                if data_of(ev.d[1]):
                    sids.add(ev.d[0])
            elif ev.kind == "iter" and ev.d[0] in sids:
                inside = True
            elif ev.kind == "setdyn" and M.ident(ev.d[0]) is obj and inside:
                done = generic = True
                v = ev.d[2]
                k = ev.d[1]
                if not data_of(v):
                    ctx.violation("restored", name + ":value", "sets the loaded attributes to %s, not to the stored value" % str(v)[:80], ev.where, api.path_steps(p.events))
                elif lossy(v, None) or whole_numbers(v, p):
                    ctx.violation("restored", name + ":lossy", "sets the loaded attributes to %s, which need not equal the stored value" % str(v)[:80], ev.where, api.path_steps(p.events))
                if any(x.op in ("call", "alloc") and x.a[0] == "numpy.dtype" for x in walk(v)):
                    convert = True
                del k
            elif ev.kind == "mut" and M.ident(ev.d[0]).op == "attr" and M.ident(ev.d[0]).a[0] is obj and M.ident(ev.d[0]).a[1] == "__dict__":
                done = generic = True
            elif ev.kind == "set" and M.ident(ev.d[0]) is obj and data_of(ev.d[2]):
                explicit.setdefault(ev.d[1], []).append((ev, p))
            elif ev.kind == "set" and M.ident(ev.d[0]) is obj and M.ident(ev.d[2]).op == "new":
                explicit.setdefault(ev.d[1], []).append((ev, p))
        if inside and not done and sids:
            keys = fact_keys(p)
            if keys is None:
                ctx.violation("restored", name + ":dropped", "a stored entry can be skipped without being set on the loaded model", where(ld), api.path_steps(p.events))
            else:
                for k in keys:
                    dropped[k] = p
        del it
    used = set()
    for p in rets:
        for ev in p.events:
            for x in flat(ev.d):
                for t in walk(x):
                    if t.op == "sub" and is_data(t.a[0]) and is_const(t.a[1]):
                        used.add(cval(t.a[1]))
    for k, p in dropped.items():
        if k in merged and k not in used:
            ctx.violation("restored", "%s:%s" % (name, k), "the stored entry %r is not read back" % k, where(ld), api.path_steps(p.events))
        if k in info.needed and k not in explicit and k not in merged:
            ctx.violation("restored", "%s:%s:skipped" % (name, k), "%r is skipped when loading" % k, where(ld), api.path_steps(p.events))
    for a, sets in explicit.items():
        for ev, p in sets:
            rebuild(ctx, name, a, ev, p, merged, info)
    if any(v.op == "attr" and v.a[1] in ("name", "str", "char") or v.op == "call" and v.a[0] == "builtins.str" for k, v in merged.items() if k == "dtype") and generic and not convert and "dtype" not in explicit:
        ctx.violation("restored", name + ":dtype", "the dtype is stored as a name and not converted back when loading", where(ld))
    if not generic:
        missing = [k for k in merged if k in info.needed and k not in explicit and k not in used]
        for k in missing:
            ctx.violation("restored", "%s:%s" % (name, k), "the stored entry %r is never read back" % k, where(ld))
    return set(explicit)


def fact_keys(p):
    """the constant keys a path of the restoring loop is limited to"""
    for k, v in p.st.facts.items():
        if k.op != "cmp":
            continue
        o, a, b = k.a
        for x, y in ((a, b), (b, a)):
            if not data_of(x) or data_of(y):
                continue
            if o == "==" and v is True and is_const(y):
                return {cval(y)}
            if o == "in" and v is True or o == "notin" and v is False:
                c = consts(y)
                if c is not None:
                    return c
    return None


def suffix(ctx, name, ld, p, ev, saved):
    arg = ev.d[1][0][0] if ev.d[1][0] else None
    if arg is None:
        return
    par = [x for x in ld.params if x not in ("cls", "self")]
    if not par:
        return
    f = mk("param", par[0])
    if not any(s.file is not None and s.file.op == "param" for _, s in saved):
        return
    if arg is not f:
        if any(is_const(x) and isinstance(cval(x), str) and ".npz" in cval(x) for x in walk(arg)):
            for k, v in p.st.facts.items():
                if ends(k, f) and v is True and arg.op == "bin":
                    ctx.violation("path", name + ":twice", "adds the suffix to a name that already has it", ev.where, api.path_steps(p.events))
            return
        ctx.saw("not_understood", "%s: reads %s" % (name, arg))
        return


def loaded_name(p):
    for ev in p.events:
        if ev.kind == "call" and ev.d[0] == "numpy.load" and ev.d[1][0]:
            return ev.d[1][0][0]
    return None


def ends(k, f):
    while k.op == "truth":
        k = k.a[0]
    return k.op == "meth" and k.a[0] is f and k.a[1] == "endswith"


def rebuild(ctx, name, a, ev, p, merged, info):
    v = ev.d[2]
    def put(x):
        if x.op == "sub" and is_data(x.a[0]) and is_const(x.a[1]) and cval(x.a[1]) in merged:
            return merged[cval(x.a[1])]
        if x.op == "meth" and x.a[1] in ("item", "tolist") or x.op == "call" and x.a[0] in ("builtins.tuple", "builtins.int", "builtins.float", "builtins.bool"):
            ks = kids(x)
            return ks[0] if ks else x
        return x
    r = rewrite(v, put)
    if data_of(r):
        ctx.saw("not_understood", "%s: %s from %s" % (name, a, str(v)[:100]))
        return
    ctx.obligation("restored", "%s: %s" % (name, a))
    if r.op in ("call", "alloc") and r.a[0].rsplit(".", 1)[-1] in ("csr_matrix", "csr_array") and r.a[1] and r.a[1][0].op == "tuple":
        comp = r.a[1][0].a[0]
        m = mk("attr", info.me, a)
        want = [mk("attr", m, x) for x in ("data", "indices", "indptr")]
        if len(comp) == 3 and a in info.learned:
            for got, w in zip(comp, want):
                if got is not w:
                    ctx.violation("restored", "%s:%s" % (name, a), "rebuilds %s from %s where its %s belongs" % (a, str(got)[:60], w.a[1]), ev.where, api.path_steps(p.events))
                    return
            kw = dict(r.a[2])
            sh = kw.get("shape")
            if sh is None:
                ctx.violation("restored", "%s:%s:shape" % (name, a), "rebuilds %s without its shape, so trailing empty columns are lost" % a, ev.where, api.path_steps(p.events))
            elif sh is not mk("attr", m, "shape"):
                ctx.violation("restored", "%s:%s:shape" % (name, a), "rebuilds %s with the shape %s" % (a, str(sh)[:60]), ev.where, api.path_steps(p.events))
        return
    if a in info.needed and r is not mk("attr", info.me, a) and r.op == "attr" and r.a[0] is info.me:
        ctx.violation("restored", "%s:%s:wrong" % (name, a), "%s is restored from %s" % (a, r), ev.where, api.path_steps(p.events))


# -- pickling

def pickling(ctx, c, info):
    proj = ctx.proj
    me = info.me
    g, s = proj.method(c, "__getstate__"), proj.method(c, "__setstate__")
    if g is None:
        return
    name = c.qual
    ctx.saw("pickles", name)
    ge, gp = api.run(ctx, g, c)
    left, repl, literal = {}, {}, None
    for p in gp:
        if p.kind != "ret":
            continue
        o = M.ident(p.value)
        gone, rep = {}, {}
        d = p.st.heap.get((o, "{}"))
        base = covers_all(d, o, me)
        if base is None:
            ctx.saw("not_understood", name + ".__getstate__")
            return
        gone = {a: None for a in base[1]}
        for k, v in base[2].items():
            rep[k] = (v, None)
        for ev in p.events:
            if ev.kind == "mut" and M.ident(ev.d[0]) is o and len(ev.d) > 2 and is_const(ev.d[2]):
                k = cval(ev.d[2])
                if ev.d[1] in ("delitem", ".pop"):
                    gone[k] = ev
                    rep.pop(k, None)
                elif ev.d[1] == "setitem":
                    rep[k] = (ev.d[3], ev)
                    gone.pop(k, None)
        if not base[0]:
            for a in info.needed:
                if a not in rep:
                    ctx.violation("pickled", "%s:%s" % (name, a), "%s is not part of the pickled state" % a, where(g), api.path_steps(p.events))
        for a, ev in gone.items():
            left.setdefault(a, (ev, p))
        for a, (v, ev) in rep.items():
            repl.setdefault(a, []).append((v, ev, p))
    sets = []
    update = s is None
    sp = []
    if s is not None:
        se, sp = api.run(ctx, s, c)
        sp = [p for p in sp if p.kind == "ret"]
        for p in sp:
            got = {}
            upd = False
            for ev in p.events:
                if ev.kind == "set" and ev.d[0] is me:
                    got[ev.d[1]] = (ev.d[2], ev)
                elif ev.kind == "mut" and M.ident(ev.d[0]).op == "attr" and M.ident(ev.d[0]).a[0] is me and M.ident(ev.d[0]).a[1] == "__dict__":
                    upd = True
                elif ev.kind == "set" and ev.d[1] == "__dict__":
                    upd = True
                elif ev.kind == "setdyn" and ev.d[0] is me:
                    upd = True
            sets.append((got, upd, p))
            update = update or upd
        for got, upd, p in sets:
            ctx.obligation("pickled", name)
            if update and not upd and not any(ev.kind == "loop" for ev in p.events):
                ctx.violation("pickled", name + ":update", "unpickling can return without restoring the pickled attributes", where(s), api.path_steps(p.events))
            for a, (v, ev) in got.items():
                if v is NONE and a in info.needed and not any(k.op == "isnone" and val is True or k.op == "truth" and val is False for k, val in p.st.facts.items()):
                    ctx.violation("pickled", "%s:%s:reset" % (name, a), "unpickling always resets %s" % a, ev.where, api.path_steps(p.events))
    for a, (ev, p) in left.items():
        ctx.obligation("pickled", "%s.%s" % (name, a))
        if a not in info.init and a not in info.reads:
            continue
        if s is None or any(a not in got for got, _, _ in sets):
            ctx.violation("pickled", "%s:%s" % (name, a), "%s is left out when pickling and not set again when unpickling" % a, ev.where if ev is not None else where(g), api.path_steps(p.events))
        elif a in info.needed and all(is_const(got[a][0]) for got, _, _ in sets):
            ctx.violation("pickled", "%s:%s" % (name, a), "%s is left out when pickling and always %s after unpickling" % (a, sets[0][0][a][0]), ev.where if ev is not None else where(g), api.path_steps(p.events))
    for a, vs in repl.items():
        ctx.obligation("pickled", "%s.%s" % (name, a))
        if a not in info.needed:
            continue
        for v, ev, p in vs:
            t = mk("attr", me, a)
            if any(x is t for x in walk(v)):
                if v is not t and not any(a in got for got, _, _ in sets) and converted(v):
                    ctx.violation("pickled", "%s:%s" % (name, a), "%s is converted when pickling and not converted back when unpickling" % a, where(g), api.path_steps(p.events))
                continue
            if v is NONE and known_falsy(p, t):
                continue
            if all(a in got and got[a][0] is not NONE for got, _, _ in sets) and sets:
                continue
            ctx.violation("pickled", "%s:%s" % (name, a), "%s is pickled as %s" % (a, str(v)[:80]), ev.where if ev is not None else where(g), api.path_steps(p.events))


def converted(v):
    return any(x.op == "meth" and x.a[1] in ("to_numpy", "tolist", "tobytes") for x in walk(v))


def known_falsy(p, t):
    return any((k.op == "isnone" and k.a[0] is t and v is True) or (k.op == "truth" and k.a[0] is t and v is False) or (k is t and v is False) for k, v in p.st.facts.items())


def covers_all(d, o, me):
    """(starts from every attribute, left out names, literal entries) of a state dictionary; None when unknown"""
    if d is not None:
        ents = d.a[0]
        allp, gone, lit = False, set(), {}
        for k, v in ents:
            if is_const(k) and cval(k) == "**":
                ex = dict_all(v, me)
                if ex is None:
                    return None
                allp = True
                gone |= ex
            elif is_const(k):
                lit[cval(k)] = v
            elif k.op == "popped":
                n = k.a[0]
                gone.add(cval(n) if isinstance(n, T) else n)
            else:
                return None
        return allp, gone, lit
    ex = dict_all(o, me)
    if ex is None:
        return None
    return True, ex, {}
