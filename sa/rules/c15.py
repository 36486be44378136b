"""C15: the two outputs of a split select complementary parts of the same ratings, and a leave-k-out split takes exactly the last K of each eligible user."""
from .. import api
from .. import model as M
from .. import native as NV
from ..project import AnalysisBroken
from ..terms import NONE, T, cval, is_const, kids, mk, walk
from .c04 import flat
from .c07 import where

MINIMUM = {"splits": 1}
SPLITS = ("implicit.evaluation.train_test_split", "implicit.evaluation.leave_k_out_split")
CSR = {"scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_matrix"}
JOIN = {"numpy.r_", "numpy.concatenate", "numpy.hstack", "numpy.append"}
SAME_CALL = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy"}
SAME_METH = {"copy", "astype"}
PERM = {"argsort", "permutation"}


def check(ctx):
    ctx.rule("aligned", "the values, users and items of an output are selected from the values, users and items of the input by the same selections")
    ctx.rule("partition", "the selections of the two outputs are complementary: together all ratings, none twice")
    ctx.rule("shape", "both outputs have the shape of the input")
    ctx.rule("values", "ratings keep their value; only negative ones on the test side of the random split are zeroed and dropped")
    ctx.rule("sides", "the first output is the training side")
    ctx.rule("eligible", "only users with more than K + 1 ratings that are not reserved for training lose ratings")
    ctx.rule("reserved", "users reserved for training are drawn as user ids from the users present, and are all excluded")
    ctx.rule("exactly-k", "the positions taken are the last K of each user's group in an array ordered by user")
    for q in SPLITS:
        f = ctx.proj.find_func(q)
        if f is None:
            raise AnalysisBroken("%s not found" % q)
        ctx.saw("splits", q)
        e, paths = api.run(ctx, f, None)
        for p in paths:
            if p.kind == "ret":
                split(ctx, f, e, p)


MUT = {}        # arrays assigned to in place on the path being looked at


class Out:
    pass


def split(ctx, f, e, p):
    name = f.qual
    v = M.ident(p.value)
    if v.op not in ("tuple", "list") or len(v.a[0]) != 2:
        ctx.saw("not_understood", name + " returns " + str(v)[:80])
        return
    MUT.clear()
    for ev in p.events:
        if ev.kind == "mut" and isinstance(ev.d[0], T):
            MUT.setdefault(M.ident(ev.d[0]), []).append(ev.d)
    outs = [output(ctx, name, x) for x in v.a[0]]
    if any(o is None for o in outs):
        ctx.saw("not_understood", name + ": an output is not built from selected values, users and items")
        return
    steps = api.path_steps(p.events)
    for side, o in zip(("train", "test"), outs):
        aligned(ctx, f, name, side, o, steps)
        shape(ctx, f, name, side, o, steps)
        values(ctx, f, name, side, o, e, p, steps)
    if any(o.chains is None for o in outs):
        return
    src = {o.coo for o in outs}
    if len(src) != 1:
        ctx.violation("aligned", name + ":source", "the two outputs are selected from different matrices", where(f), steps)
        return
    ctx.obligation("partition", name)
    bad = partition([c for o in outs for c in o.chains])
    if bad == "unknown":
        ctx.saw("not_understood", "%s: selections %s" % (name, " / ".join(str(c)[:100] for o in outs for c in o.chains)))
    elif bad:
        ctx.violation("partition", name, bad, where(f), steps)
    covered(ctx, f, name, outs, steps)
    if f.qual.endswith("leave_k_out_split"):
        leave_k(ctx, f, name, outs, e, p, steps)
    else:
        sides(ctx, f, name, outs, steps)


def covered(ctx, f, name, outs, steps):
    """a complement taken from a range covers exactly the positions of the array it selects from"""
    for o in outs:
        for x in walk(o.t):
            if x.op != "sub":
                continue
            s = strip(x.a[1])
            if s.op == "sub" and is_perm(s.a[0]):
                s = strip(s.a[1])
            if s.op not in ("call", "alloc") or s.a[0] != "numpy.setdiff1d" or len(s.a[1]) < 2:
                continue
            r = strip(s.a[1][0])
            if r.op not in ("call", "alloc") or r.a[0] != "numpy.arange" or not r.a[1]:
                continue
            base = chain(x.a[0])
            if base is None:
                continue
            if len(r.a[1]) > 1 and not (is_const(r.a[1][0]) and cval(r.a[1][0]) == 0):
                ctx.violation("partition", name + ":range", "the complement leaves out the positions before %s" % r.a[1][0], where(f), steps)
                continue
            n = M.ident(r.a[1][1] if len(r.a[1]) > 1 else r.a[1][0])
            d = NV.linear(n)
            of = [k for k in d if k != 1]
            if len(of) == 1 and d[of[0]] == 1 and d.get(1, 0) != 0:
                ctx.violation("partition", name + ":range", "the complement is taken from range(%s)" % str(n)[:60], where(f), steps)
                continue
            m = sized(n)
            c = chain(m) if m is not None else None
            if c is not None and not same([c[2]], [base[2]]):
                ctx.violation("partition", name + ":range", "the complement is taken from the positions of another array", where(f), steps)


def sized(n):
    if n.op in ("call", "alloc") and n.a[0] == "builtins.len" and n.a[1]:
        return n.a[1][0]
    if n.op == "attr" and n.a[1] == "size":
        return n.a[0]
    if n.op == "sub" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1]) and cval(n.a[1]) == 0:
        return n.a[0].a[0]
    return None


def output(ctx, name, t):
    """the matrix term of one output as joined, selected components"""
    t = M.ident(t)
    muts = []
    while t.op == "meth" and t.a[1] in ("tocsr", "copy", "sorted_indices"):
        t = M.ident(t.a[0])
    if t.op not in ("call", "alloc") or t.a[0] not in CSR or not t.a[1]:
        return None
    a = M.ident(t.a[1][0])
    if a.op not in ("tuple", "list") or len(a.a[0]) != 2:
        return None
    data, rc = a.a[0]
    rc = M.ident(rc)
    if rc.op not in ("tuple", "list") or len(rc.a[0]) != 2:
        return None
    o = Out()
    o.t = t
    o.kws = dict(t.a[2])
    o.pos = t.a[1]
    o.altered = []
    for x in joined(data):
        how = altered(x)
        if how is not None:
            o.altered.append(how)
    o.comp = {"data": parts(data), "row": parts(rc.a[0][0]), "col": parts(rc.a[0][1])}
    o.raw = {"row": rc.a[0][0], "col": rc.a[0][1]}
    o.chains = None
    o.coo = None
    return o


def parts(t):
    """[(attribute, matrix, [selectors])] of a concatenation of selections; None entries where not understood"""
    t = strip(t)
    if t.op in ("call", "alloc") and t.a[0] in JOIN:
        args = t.a[1]
        if t.a[0] != "numpy.append" and len(args) == 1 and M.ident(args[0]).op in ("tuple", "list"):
            args = M.ident(args[0]).a[0]
        return [q for x in args if isinstance(x, T) for q in parts(x)]
    return [chain(t)]


def joined(t):
    t = strip(t)
    if t.op in ("call", "alloc") and t.a[0] in JOIN:
        args = t.a[1]
        if t.a[0] != "numpy.append" and len(args) == 1 and M.ident(args[0]).op in ("tuple", "list"):
            args = M.ident(args[0]).a[0]
        return [q for x in args if isinstance(x, T) for q in joined(x)]
    return [t]


CHANGES = {"numpy." + x for x in ("abs", "absolute", "fabs", "minimum", "maximum", "clip", "round", "around", "rint", "floor", "ceil", "sqrt", "log", "log1p", "log2",
                                  "exp", "sign", "square", "negative", "nan_to_num", "ones_like", "zeros_like", "trunc", "power", "divide", "multiply")} | {"builtins.abs", "builtins.round"}


def altered(t):
    """how ratings taken from the input are changed on their way to an output, or None"""
    for _ in range(12):
        t = M.ident(t)
        if t.op in ("call", "alloc") and t.a[0] in CHANGES and t.a[1] and any(from_data(x) for x in t.a[1]):
            return t
        if t.op == "un" and t.a[0] == "-" and from_data(t.a[1]):
            return t
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "//", "**", "%"):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if from_data(x) and is_const(y) and cval(y) not in (0, 1):
                    return t
                if from_data(x) and from_data(y):
                    return t
            return None
        if t.op == "cmp" and any(from_data(x) for x in t.a[1:]):
            return t
        if t.op == "meth" and t.a[1] in ("clip", "round") and from_data(t.a[0]):
            return t
        if t.op == "meth" and t.a[1] == "astype" and t.a[2]:
            d = t.a[2][0]
            if from_data(t.a[0]) and (d.op == "glob" and d.a[0] in ("builtins.int", "builtins.bool", "numpy.int32", "numpy.int64", "numpy.int8", "numpy.bool_")
                                      or is_const(d) and str(cval(d)).startswith(("int", "bool", "uint"))):
                return t
            t = t.a[0]
        elif t.op == "meth" and t.a[1] == "copy" or t.op in ("sub", "upd"):
            t = t.a[0]
        elif t.op in ("call", "alloc") and t.a[0] in SAME_CALL and t.a[1]:
            t = t.a[1][0]
        else:
            return None
    return None


def from_data(t):
    c = chain(t)
    return c is not None and c[0] == "data"


def strip(t):
    while True:
        t = M.ident(t)
        if t.op in ("call", "alloc") and t.a[0] in SAME_CALL and t.a[1]:
            t = t.a[1][0]
        elif t.op == "meth" and t.a[1] in SAME_METH:
            t = t.a[0]
        else:
            return t


def chain(t):
    t = strip(t)
    sel = []
    while True:
        if t.op == "sub":
            sel.append(selector(t.a[1]))
            t = strip(t.a[0])
        elif t.op == "call" and t.a[0] in ("numpy.take", "numpy.delete") and len(t.a[1]) >= 2:
            s = selector(t.a[1][1])
            sel.append((s[0], not s[1]) if t.a[0].endswith("delete") else s)
            t = strip(t.a[1][0])
        elif t.op == "call" and t.a[0] in ("numpy.compress", "numpy.extract") and len(t.a[1]) >= 2:
            sel.append(selector(t.a[1][0]))
            t = strip(t.a[1][1])
        elif t.op == "meth" and t.a[1] in ("take", "compress") and t.a[2]:
            sel.append(selector(t.a[2][0]))
            t = strip(t.a[0])
        else:
            break
    if t.op == "attr" and t.a[1] in ("data", "row", "col", "indices"):
        return t.a[1], M.ident(t.a[0]), tuple(reversed(sel))
    return None


SWAP = {"<": "<", ">": ">"}


def selector(s):
    """(atom, polarity): a selection and its complement share the atom"""
    s = strip(s)
    pol = True
    while True:
        s = strip(s)
        if s.op == "un" and s.a[0] in ("~", "not"):
            s, pol = s.a[1], not pol
        elif s.op == "call" and s.a[0] in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not") and s.a[1]:
            s, pol = s.a[1][0], not pol
        elif s.op in ("call", "alloc") and s.a[0] in ("numpy.flatnonzero",) and s.a[1]:
            s = s.a[1][0]
        elif s.op == "sub" and s.a[0].op in ("call", "alloc") and s.a[0].a[0] in ("numpy.where", "numpy.nonzero") and len(s.a[0].a[1]) == 1 and is_const(s.a[1]) and cval(s.a[1]) == 0:
            s = s.a[0].a[1][0]
        elif s.op in ("call", "alloc") and s.a[0] in ("numpy.in1d", "numpy.isin") and dict(s.a[2]).get("invert") is not None:
            k = dict(s.a[2]).pop("invert")
            if is_const(k) and cval(k):
                pol = not pol
            s = mk("call", "numpy.in1d", s.a[1], tuple(x for x in s.a[2] if x[0] != "invert"))
        elif s.op == "cmp" and s.a[0] in (">=", "<="):
            # a >= b is not (a < b);  a <= b is not (b < a)
            a, b = s.a[1], s.a[2]
            s, pol = (mk("cmp", "<", a, b) if s.a[0] == ">=" else mk("cmp", "<", b, a)), not pol
        elif s.op == "cmp" and s.a[0] == ">":
            s = mk("cmp", "<", s.a[2], s.a[1])
        elif s.op == "cmp" and s.a[0] == "!=":
            s, pol = mk("cmp", "==", s.a[1], s.a[2]), not pol
        elif s.op in ("call", "alloc") and s.a[0] == "numpy.setdiff1d" and len(s.a[1]) >= 2 and is_all(s.a[1][0]):
            return (M.ident(s.a[1][1]), not pol)
        elif s.op == "sub" and is_perm(s.a[0]) and strip(s.a[1]).op in ("call", "alloc") and strip(s.a[1]).a[0] == "numpy.setdiff1d" \
                and (strip(s.a[1]).a[1][0] is M.ident(s.a[0]) or is_all(strip(s.a[1]).a[1][0])):
            # the positions of a permutation that are not the taken ones
            return (mk("sub", s.a[0], strip(s.a[1]).a[1][1]), not pol)
        elif s in MUT and s.op in ("call", "alloc") and s.a[0] in ("numpy.ones", "numpy.zeros", "numpy.full") and len(MUT[s]) == 1:
            _, _, idx, val = MUT[s][0][:4]
            full = s.a[0] == "numpy.ones" or s.a[0] == "numpy.full" and len(s.a[1]) > 1 and is_const(s.a[1][1]) and cval(s.a[1][1]) in (True, 1)
            if isinstance(idx, T) and isinstance(val, T) and is_const(val) and bool(cval(val)) != full:
                i = selector(idx)
                return (i[0], i[1] == (pol != full))
            return (s, pol)
        else:
            return (s, pol)


def is_all(t):
    t = strip(t)
    return t.op in ("call", "alloc") and t.a[0] == "numpy.arange" or is_perm(t) or t.op == "range"


def is_perm(t):
    t = strip(t)
    return t.op == "meth" and t.a[1] in PERM or t.op in ("call", "alloc") and t.a[0] == "numpy.argsort"


def partition(chains):
    """None when the chains select every element exactly once, 'unknown', or what is wrong"""
    if len(chains) == 1 and not chains[0]:
        return None
    if any(not c for c in chains):
        return "some ratings are selected for both outputs: one selection takes all of them"
    atoms = []
    for c in chains:
        if not any(c[0][0] is a for a in atoms):
            atoms.append(c[0][0])
    if len(atoms) > 1:
        return distinct(chains)
    pos = [c[1:] for c in chains if c[0][1]]
    neg = [c[1:] for c in chains if not c[0][1]]
    if not pos or not neg:
        return "ratings %s %s are in neither output%s" % ("outside of" if pos else "in", str(atoms[0])[:120], ", the others in both" if len(chains) > 1 else "")
    for g in (pos, neg):
        r = partition(g)
        if r:
            return r
    return None


def distinct(chains):
    """two selections that are not each other's complement"""
    if len(chains) != 2 or any(len(c) != 1 for c in chains):
        return "unknown"
    (a, pa), (b, pb) = chains[0][0], chains[1][0]
    if a.op == "cmp" and b.op == "cmp":
        ra, rb = draws(a), draws(b)
        if ra and rb and not any(x is y for x in ra for y in rb):
            return "the two sides are decided by different random draws, so a rating can be in both or neither"
        if {a.a[1], a.a[2]} == {b.a[1], b.a[2]} and a is not b:
            return "a rating for which both compared values are equal is in %s" % ("neither output" if pa and pb else "both outputs")
        common = [x for x in a.a[1:] if any(x is y for y in b.a[1:])]
        if len(common) == 1:
            oa = next(x for x in a.a[1:] if x is not common[0])
            ob = next(x for x in b.a[1:] if x is not common[0])
            d = NV.diff(oa, ob)
            if d:
                return "the two sides use different thresholds %s and %s" % (oa, ob)
    return "unknown"


def draws(t):
    return [x for x in walk(t) if x.op == "meth" and x.a[1] in ("random", "rand", "uniform", "random_sample")]


def aligned(ctx, f, name, side, o, steps):
    ctx.obligation("aligned", "%s:%s" % (name, side))
    if any(c is None for v in o.comp.values() for c in v):
        for k, what in (("row", "user"), ("col", "item")):
            for x in joined(o.raw[k]):
                while x.op == "sub" and not is_inverse(x):
                    x = strip(x.a[0])
                if is_inverse(x):
                    ctx.violation("aligned", "%s:%s:%s" % (name, side, k), "the %ss of the %s output are numbered by their position among the distinct %ss instead of by their id" % (what, side, what),
                                  where(f), steps)
                    return
        ctx.saw("not_understood", "%s: %s side" % (name, side))
        return
    ms = {c[1] for v in o.comp.values() for c in v}
    for k, want in (("data", ("data",)), ("row", ("row",)), ("col", ("col", "indices"))):
        for c in o.comp[k]:
            if c[0] not in want:
                ctx.violation("aligned", "%s:%s:%s" % (name, side, k), "the %s of the %s output is taken from the %s of the input" % (k, side, c[0]), where(f), steps)
                return
    sels = {k: [c[2] for c in v] for k, v in o.comp.items()}
    if not (same(sels["data"], sels["row"]) and same(sels["row"], sels["col"])):
        ctx.violation("aligned", "%s:%s" % (name, side), "the values, users and items of the %s output are not selected (or joined) the same way" % side, where(f), steps)
        return
    if len(ms) != 1:
        ctx.violation("aligned", "%s:%s:source" % (name, side), "the components of the %s output come from different matrices" % side, where(f), steps)
        return
    o.coo = next(iter(ms))
    o.chains = sels["data"]


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(s[0] is t[0] and s[1] == t[1] for s, t in zip(x, y)) for x, y in zip(a, b))


def root(m):
    """the caller's matrix behind conversions"""
    m = M.ident(m)
    while m.op == "meth" and m.a[1] in ("tocoo", "tocsr", "copy", "astype", "asfptype") or m.op in ("call", "alloc") and m.a[0] in CSR and m.a[1]:
        m = M.ident(m.a[0] if m.op == "meth" else m.a[1][0])
    return m


def shape(ctx, f, name, side, o, steps):
    ctx.obligation("shape", "%s:%s" % (name, side))
    s = o.kws.get("shape")
    if s is None and len(o.pos) > 1:
        s = o.pos[1]
    if s is None:
        ctx.violation("shape", "%s:%s" % (name, side), "the %s output is given no shape: users or items without ratings at the end are lost" % side, where(f), steps)
        return
    s = M.ident(s)
    base = next((c[1] for c in o.comp["data"] if c), None)
    if s.op == "attr" and s.a[1] == "shape":
        if base is not None and root(s.a[0]) is not root(base):
            ctx.violation("shape", "%s:%s" % (name, side), "the %s output gets the shape of %s" % (side, str(s.a[0])[:60]), where(f), steps)
        return
    if s.op in ("tuple", "list") and len(s.a[0]) == 2:
        ix = []
        for x in s.a[0]:
            x = M.ident(x)
            if x.op == "sub" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and is_const(x.a[1]):
                ix.append(cval(x.a[1]))
            else:
                ix.append(None)
        if ix == [0, 1]:
            return
        if ix == [1, 0] or any(M.ident(x).op == "call" and M.ident(x).a[0] == "builtins.len" or M.ident(x).op == "bin" for x in s.a[0]):
            ctx.violation("shape", "%s:%s" % (name, side), "the %s output gets the shape %s" % (side, str(s)[:80]), where(f), steps)
            return
    ctx.saw("not_understood", "%s: shape %s" % (name, str(s)[:80]))


def values(ctx, f, name, side, o, e, p, steps):
    construct = "%s:%s" % (name, side)
    ctx.obligation("values", construct)
    d = o.kws.get("dtype")
    if d is not None and not (d.op == "attr" and d.a[1] == "dtype"):
        ctx.violation("values", construct + ":dtype", "the %s output is converted to %s" % (side, str(d)[:40]), where(f), steps)
    zeroing_ok = side == "test" and not f.qual.endswith("leave_k_out_split")
    for t in o.altered:
        if zeroing_ok and floored(t):
            continue
        ctx.violation("values", construct + ":altered", "the ratings of the %s output are %s instead of the given ones" % (side, str(t)[:80]), where(f), steps)
    for ev in p.events:
        if ev.kind == "mut" and isinstance(ev.d[0], T):
            t = ev.d[0]
            if not any(M.ident(x) is o.t or x is o.t for x in walk(t)) or M.ident(rootof(t)) is not o.t:
                continue
            how, idx, val = ev.d[1], ev.d[2], ev.d[3] if len(ev.d) > 3 else None
            on_data = t.op == "attr" and t.a[1] == "data"
            if t is o.t or M.ident(t) is o.t:
                if "sort_indices" in str(how) or "sum_duplicates" in str(how):
                    continue
                if "eliminate_zeros" in str(how) and zeroing_ok:
                    continue
                if "eliminate_zeros" in str(how):
                    ctx.violation("values", construct + ":dropped", "ratings of zero are dropped from the %s output" % side, ev.where, steps)
                else:
                    ctx.saw("not_understood", "%s: %s on the %s output" % (name, how, side))
                continue
            if not on_data:
                ctx.violation("values", construct + ":index", "the %s output's %s is changed" % (side, t.a[1] if t.op == "attr" else "structure"), ev.where, steps)
                continue
            cond = M.ident(idx) if isinstance(idx, T) else None
            if zeroing_ok and nonpositive(cond, t) and val is not None and is_const(val) and cval(val) == 0:
                continue
            if zeroing_ok and str(how).endswith(":out") and floored(val, t):
                continue
            ctx.violation("values", construct + ":data", "the ratings of the %s output are changed (%s)" % (side, str(cond)[:80]), ev.where, steps)
        elif ev.kind == "set" and isinstance(ev.d[0], T) and M.ident(ev.d[0]) is o.t and ev.d[1] in ("data", "row", "col", "indices", "indptr"):
            if zeroing_ok and ev.d[1] == "data" and any(isinstance(x, T) and floored(x) for x in ev.d[2:]):
                continue
            ctx.violation("values", construct + ":set", "the %s of the %s output is replaced" % (ev.d[1], side), ev.where, steps)


def floored(t, data=None):
    """max(0, ratings)"""
    if not isinstance(t, T):
        return False
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.maximum", "numpy.fmax", "numpy.clip"):
        args = t.a[1]
    elif t.op == "meth" and t.a[1] == "clip":
        args = t.a[2]
    else:
        return False
    return any(is_const(x) and cval(x) == 0 for x in args)


def rootof(t):
    while t.op in ("attr", "sub", "upd", "inpl"):
        t = t.a[0]
    return t


def nonpositive(c, data):
    if c is None or c.op != "cmp":
        return False
    op, a, b = c.a
    if is_const(a) and not is_const(b):
        op, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a
    return op in ("<", "<=") and is_const(b) and cval(b) == 0 and a.op == "attr" and a.a[1] == "data" and M.ident(a.a[0]) is M.ident(data.a[0])


def sides(ctx, f, name, outs, steps):
    ctx.obligation("sides", name)
    c = outs[0].chains
    if len(c) != 1 or len(c[0]) != 1:
        return
    a, pol = c[0][0]
    if a.op != "cmp" or a.a[0] != "<":
        return
    lhs, rhs = a.a[1], a.a[2]
    pct = mk("param", "train_percentage")
    up = bool(draws(lhs)) and rhs is pct            # random < train_percentage
    down = bool(draws(rhs)) and lhs is pct
    if up and not pol or down and pol:
        ctx.violation("sides", name, "the training output gets the fraction meant for testing", where(f), steps)
    if not (up or down):
        if not any(x is pct for x in walk(a)):
            ctx.violation("sides", name + ":percentage", "the split does not depend on train_percentage", where(f), steps)
        else:
            ctx.saw("not_understood", name + ": " + str(a)[:80])
    for r in draws(lhs) + draws(rhs):
        n = r.a[2][0] if r.a[2] else dict(r.a[3]).get("size") if len(r.a) > 3 else None
        if n is None:
            ctx.violation("sides", name + ":one", "one random draw decides the side of all ratings", where(f), steps)


# -- leave-k-out

def leave_k(ctx, f, name, outs, e, p, steps):
    K = mk("param", "K")
    train, test = outs
    ctx.obligation("sides", name)
    if len(test.chains) != 1 or len(test.chains[0]) < 1:
        if len(train.chains) == 1 and len(test.chains) > 1:
            ctx.violation("sides", name, "the output with the ratings of users that lose none is returned as the test side", where(f), steps)
        else:
            ctx.saw("not_understood", name + ": test selections %s" % (test.chains,))
        return
    ch = test.chains[0]
    if len(ch) == 2:
        (users_atom, upol), (idx, ipol) = ch
        if not ipol:
            ctx.violation("sides", name, "the test side gets all but the last K ratings of a user", where(f), steps)
            return
        if not upol:
            ctx.violation("eligible", name + ":inverted", "the test side takes ratings of the users that are not eligible", where(f), steps)
            return
        eligible(ctx, f, name, users_atom, test, K, p, steps)
        exactly(ctx, f, name, idx, (users_atom, upol), test, K, steps)
    else:
        ctx.saw("not_understood", name + ": test selection of %d steps" % len(ch))


def eligible(ctx, f, name, atom, o, K, p, steps):
    """atom selects ratings: isin(users, unique[mask])"""
    ctx.obligation("eligible", name)
    row = mk("attr", o.coo, "row")
    if not (atom.op in ("call", "alloc") and atom.a[0] in ("numpy.in1d", "numpy.isin") and len(atom.a[1]) >= 2):
        ctx.saw("not_understood", name + ": candidates " + str(atom)[:100])
        return
    who, among = strip(atom.a[1][0]), strip(atom.a[1][1])
    if who.op == "attr" and who.a[1] in ("col", "data"):
        ctx.violation("eligible", name + ":axis", "eligible users are looked up among the %s of the ratings" % {"col": "items", "data": "values"}[who.a[1]], where(f), steps)
        return
    if among.op != "sub":
        if is_const(among.a[1] if among.op == "sub" else NONE):
            return
        ctx.saw("not_understood", name + ": candidates among " + str(among)[:100])
        return
    uniq, mask = strip(among.a[0]), among.a[1]
    conds = conjuncts(mask)
    touched = [d for c in list(conds) + [(strip(mask), True)] for d in MUT.get(c[0], ())]
    unclear = False
    for d in {id(d): d for d in touched}.values():
        idx, val = d[2], d[3]
        if isinstance(val, T) and is_const(val) and not cval(val) and isinstance(idx, T) and draws_positions(idx):
            conds = conds + [(mk("call", "numpy.in1d", (uniq, mk("sub", uniq, idx)), ()), False)]
        else:
            unclear = True
    if unclear:
        ctx.saw("not_understood", name + ": the eligible users are changed in place")
        return
    counts = [c for c in conds if mentions_counts(c[0])]
    others = [c for c in conds if not mentions_counts(c[0])]
    if any(c[0].op == "bin" and c[0].a[0] in ("|", "^") for c in conds):
        ctx.violation("eligible", name + ":or", "users are eligible when only one of the conditions holds: %s" % str(mask)[:100], where(f), steps)
        return
    if not counts:
        ctx.violation("eligible", name + ":count", "users lose ratings whatever number of ratings they have", where(f), steps)
    for c in counts:
        threshold(ctx, f, name, c, K, steps)
    size = mk("param", "train_only_size")
    wanted = None
    for k, v in p.st.facts.items():
        if k.op == "cmp" and any(x is size for x in k.a[1:]) and any(is_const(x) and cval(x) == 0 for x in k.a[1:]):
            op, a, b = k.a
            positive = op == "<" and b is size or op == ">" and a is size
            if positive:
                wanted = v if wanted is None else wanted
        elif k.op == "truth" and k.a[0] is size:
            wanted = v
    ctx.obligation("reserved", name)
    if wanted is not False:
        if not others:
            if wanted:
                ctx.violation("reserved", name, "no users are reserved for training although train_only_size is positive", where(f), steps)
            return
        for c in others:
            reserved(ctx, f, name, c, uniq, steps)


def mentions_counts(t):
    return any(x.op == "sub" and x.a[0].op in ("call", "alloc") and x.a[0].a[0] == "numpy.unique" and any(k == "return_counts" for k, _ in x.a[0].a[2])
               and is_const(x.a[1]) and cval(x.a[1]) != 0 or x.op in ("call", "alloc") and x.a[0] == "numpy.bincount" for x in outer(t))


def outer(t):
    """subterms of a condition, without looking into the arguments of membership tests"""
    yield t
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.in1d", "numpy.isin"):
        return
    for k in kids(t):
        yield from outer(k)


def conjuncts(m):
    m = strip(m)
    if m.op == "bin" and m.a[0] == "&" or m.op in ("call", "alloc") and m.a[0] in ("numpy.logical_and",):
        a, b = (m.a[1], m.a[2]) if m.op == "bin" else m.a[1][:2]
        return conjuncts(a) + conjuncts(b)
    if m.op == "bin" and m.a[0] == "*":
        return conjuncts(m.a[1]) + conjuncts(m.a[2])
    s = selector(m)
    if s[0].op == "bin" and s[0].a[0] == "|" and not s[1]:
        # not (a or b)
        return [(x, not q) for x, q in conjuncts_or(s[0])]
    return [s]


def conjuncts_or(m):
    m = strip(m)
    if m.op == "bin" and m.a[0] == "|":
        return conjuncts_or(m.a[1]) + conjuncts_or(m.a[2])
    return [selector(m)]


def threshold(ctx, f, name, c, K, steps):
    a, pol = c
    if a.op != "cmp" or a.a[0] != "<":
        ctx.saw("not_understood", name + ": eligible when " + str(a)[:100])
        return
    x, y = a.a[1], a.a[2]
    # pol: x < y ; otherwise y <= x
    lo, hi, strict = (x, y, True) if pol else (y, x, False)
    d = NV.diff(hi, lo)                       # strict: d > 0, else d >= 0
    cnt = [k for k in d if k != 1 and k is not K and mentions_counts(k)]
    for k in d:
        if isinstance(k, T) and k.op in ("call", "alloc") and k.a[0] in ("builtins.min", "numpy.minimum") and K in k.a[1] and any(is_const(x) for x in k.a[1]):
            ctx.violation("eligible", name + ":count", "users with no more than K + 1 ratings are eligible once K exceeds the limit in %s" % str(k)[:60], where(f), steps)
            return
    if len(cnt) != 1 or set(d) - {1, K, cnt[0]}:
        ctx.saw("not_understood", name + ": eligible when " + str(a)[:100])
        return
    if d[cnt[0]] != 1:
        ctx.violation("eligible", name + ":count", "users with few ratings are the eligible ones", where(f), steps)
        return
    # counts - K + c (> or >=) 0   ->   counts >= K + least
    least = -d.get(1, 0) + (1 if strict else 0)
    if d.get(K, 0) != -1:
        ctx.violation("eligible", name + ":count", "whether a user is eligible does not depend on K: %s" % str(a)[:80], where(f), steps)
    elif least != 2:
        ctx.violation("eligible", name + ":count", "users with at least K + %s ratings are eligible instead of those with more than K + 1" % least, where(f), steps)


def reserved(ctx, f, name, c, uniq, steps):
    a, pol = c
    if not (a.op in ("call", "alloc") and a.a[0] in ("numpy.in1d", "numpy.isin") and len(a.a[1]) >= 2):
        ctx.saw("not_understood", name + ": reserved when " + str(a)[:100])
        return
    ids, chosen = strip(a.a[1][0]), strip(a.a[1][1])
    if pol:
        ctx.violation("reserved", name + ":inverted", "the users drawn to be reserved for training are the only ones that lose ratings", where(f), steps)
        return
    ids_are_positions = ids.op in ("call", "alloc") and ids.a[0] == "numpy.arange"
    chosen_positions = draws_positions(chosen)
    if not ids_are_positions and chosen_positions:
        ctx.violation("reserved", name + ":positions", "user ids are compared with positions drawn from range(number of users)", where(f), steps)
    elif ids_are_positions and chosen.op == "sub":
        ctx.violation("reserved", name + ":positions", "positions are compared with user ids", where(f), steps)
    elif chosen.op == "sub" and not is_same_users(chosen.a[0], ids):
        ctx.saw("not_understood", name + ": reserved users from " + str(chosen)[:80])
    for x in walk(chosen):
        if x.op == "meth" and x.a[1] == "choice":
            kw = dict(x.a[3]) if len(x.a) > 3 else {}
            r = kw.get("replace")
            if r is None or is_const(r) and cval(r):
                ctx.saw("not_understood", name + ": reserved users drawn with replacement")


def draws_positions(t):
    t = strip(t)
    return t.op == "meth" and t.a[1] in ("choice", "integers", "permutation", "randint") and t.a[2] and is_size(t.a[2][0])


def is_size(t):
    t = M.ident(t)
    return t.op in ("call", "alloc") and t.a[0] == "builtins.len" or t.op == "attr" and t.a[1] == "size" or t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape"


def is_same_users(a, b):
    return strip(a) is strip(b)


def exactly(ctx, f, name, idx, users_sel, o, K, steps):
    """idx: positions within the candidate ratings"""
    ctx.obligation("exactly-k", name)
    idx = strip(idx)
    order = None
    pos = idx
    if idx.op == "sub" and is_perm(idx.a[0]) and not (has_ranges(idx.a[0])):
        order, pos = strip(idx.a[0]), strip(idx.a[1])
    if order is not None and pos.op == "sub" and is_perm(pos.a[0]) and strip(pos.a[0]) is order:
        ctx.violation("exactly-k", name + ":order", "positions are translated twice by the same ordering", where(f), steps)
        return
    # within-group shuffle
    shuffle = None
    if pos.op == "sub" and is_perm(pos.a[0]):
        shuffle, pos = strip(pos.a[0]), strip(pos.a[1])
    elif order is not None and has_noise(order):
        shuffle, order = order, None
    lines = unravel(pos)
    if lines is None:
        ctx.saw("not_understood", name + ": positions " + str(pos)[:100])
        return
    rng = linspace(lines)
    if rng is None:
        ctx.saw("not_understood", name + ": positions " + str(lines)[:100])
        return
    first, last, step, count = rng
    if NV.minus(count, {K: 1}):
        ctx.violation("exactly-k", name + ":count", "takes %s ratings per user instead of K" % show(count), where(f), steps)
        return
    if step is not None and step != {1: 1}:
        ctx.violation("exactly-k", name + ":step", "the positions taken are %s apart" % show(step), where(f), steps)
        return
    ends = [k for k in last if k != 1]
    if len(ends) != 1 or last[ends[0]] != 1 or not is_cumsum(ends[0]):
        ctx.saw("not_understood", name + ": last position " + show(last)[:100])
        return
    off = last.get(1, 0)
    if off != -1:
        ctx.violation("exactly-k", name + ":end", "the last position taken of each user is the end of the group %+d" % (off + 1), where(f), steps)
        return
    counted = bincounted(ends[0])
    if counted is None:
        ctx.saw("not_understood", name + ": counts " + str(ends[0])[:100])
        return
    arr, perm = behind(counted)
    sorted_by = perm
    # ids counted must be consecutive
    if not is_inverse(arr):
        c = chain(arr)
        if c is not None and c[0] in ("row", "col"):
            ctx.violation("exactly-k", name + ":consecutive", "groups are counted by %s ids, which need not be consecutive: users without ratings shift or repeat the positions taken" % {"row": "user", "col": "item"}[c[0]], where(f), steps)
        else:
            ctx.saw("not_understood", name + ": groups " + str(arr)[:80])
        return
    src = chain(inverse_of(arr))
    if src is not None and src[0] != "row":
        ctx.violation("exactly-k", name + ":group", "ratings are grouped by %s instead of by user" % src[0], where(f), steps)
        return
    if src is not None and not same([src[2]], [(users_sel,)]):
        ctx.saw("not_understood", name + ": groups are counted over another selection")
        return
    if shuffle is not None:
        noise(ctx, f, name, shuffle, arr, sorted_by, steps)
        direct = sort_keys(shuffle) is not None and any(k is arr for k in sort_keys(shuffle))
        if order is None and not direct:
            ctx.violation("exactly-k", name + ":order", "positions in the array ordered by user are used as positions in the unordered one", where(f), steps)
            return
        if order is not None and direct:
            ctx.violation("exactly-k", name + ":order", "positions in the unordered array are translated as if they were positions in the ordered one", where(f), steps)
            return
    elif order is None:
        ctx.violation("exactly-k", name + ":order", "positions in the array ordered by user are used as positions in the unordered one", where(f), steps)
        return
    if order is not None and not (perm is not None and order is perm or sort_of(order) is arr):
        ctx.violation("exactly-k", name + ":order", "positions are translated by the ordering of another array", where(f), steps)


def show(l):
    return " + ".join("%s%s" % ("" if v == 1 else "%s*" % v, str(k)[:60] if k != 1 else 1) for k, v in l.items()) or "0"


def has_ranges(t):
    return any(x.op in ("call", "alloc") and x.a[0] in ("numpy.linspace",) for x in walk(t))


def has_noise(t):
    k = sort_keys(t)
    return k is not None and any(draws(x) for x in k)


def unravel(t):
    t = strip(t)
    while t.op in ("call", "alloc") and t.a[0] in ("numpy.ravel", "numpy.concatenate", "numpy.hstack", "numpy.sort") and t.a[1] or t.op == "meth" and t.a[1] in ("ravel", "flatten", "reshape") or t.op == "attr" and t.a[1] == "T":
        t = strip(t.a[1][0] if t.op in ("call", "alloc") else t.a[0])
    return t


def linspace(t):
    """(first, last, step, count) linear forms of linspace(a, b, num)[s:]"""
    skip = 0
    stop = 0
    if t.op == "sub" and t.a[1].op == "slice":
        lo, hi = t.a[1].a[0], t.a[1].a[1]
        if lo is not NONE:
            if not is_const(lo) or not isinstance(cval(lo), int) or cval(lo) < 0:
                return None
            skip = cval(lo)
        if hi is not NONE:
            if not is_const(hi) or not isinstance(cval(hi), int) or cval(hi) >= 0:
                return None
            stop = -cval(hi)
        t = strip(t.a[0])
    if t.op not in ("call", "alloc") or t.a[0] != "numpy.linspace" or len(t.a[1]) < 2:
        return None
    kw = dict(t.a[2])
    num = t.a[1][2] if len(t.a[1]) > 2 else kw.get("num")
    if num is None:
        return None
    endp = kw.get("endpoint")
    a, b = NV.linear(t.a[1][0]), NV.linear(t.a[1][1])
    n = NV.linear(num)
    width = NV.minus(b, a)
    gaps = NV.minus(n, {1: 1})
    if endp is not None and is_const(endp) and not cval(endp):
        gaps = n
        b = None
    if width == gaps:
        step = {1: 1}
    else:
        step = dict(width)
        step[mk("opaque", "gaps")] = 1
    count = NV.minus(n, {1: skip + stop})
    if b is None:
        b = NV.plus(NV.linear(t.a[1][0]), NV.minus(n, {1: 1}))
    last = NV.minus(b, {1: stop}) if stop else b
    return a, last, step, count


def is_cumsum(t):
    return t.op == "meth" and t.a[1] == "cumsum" or t.op in ("call", "alloc") and t.a[0] == "numpy.cumsum"


def bincounted(t):
    inner = strip(t.a[0] if t.op == "meth" else t.a[1][0])
    if inner.op in ("call", "alloc") and inner.a[0] == "numpy.bincount" and inner.a[1]:
        return strip(inner.a[1][0])
    return None


def behind(t):
    """(array, permutation applied to it)"""
    t = strip(t)
    if t.op == "sub" and is_perm(t.a[0] if False else t.a[1]):
        return strip(t.a[0]), strip(t.a[1])
    if t.op in ("call", "alloc") and t.a[0] == "numpy.sort" and t.a[1]:
        return strip(t.a[1][0]), None
    return t, None


def is_inverse(t):
    return t.op == "sub" and t.a[0].op in ("call", "alloc") and t.a[0].a[0] == "numpy.unique" and any(k == "return_inverse" for k, _ in t.a[0].a[2]) and is_const(t.a[1]) and cval(t.a[1]) in (1, -1)


def inverse_of(t):
    return strip(t.a[0].a[1][0])


def sort_of(t):
    t = strip(t)
    if t.op == "meth" and t.a[1] == "argsort":
        return strip(t.a[0])
    if t.op in ("call", "alloc") and t.a[0] == "numpy.argsort" and t.a[1]:
        return strip(t.a[1][0])
    return None


def sort_keys(t):
    s = sort_of(t)
    if s is None:
        return None
    if s.op == "bin" and s.a[0] == "+":
        return [strip(s.a[1]), strip(s.a[2])]
    return [s]


def noise(ctx, f, name, shuffle, arr, perm, steps):
    ks = sort_keys(shuffle)
    if ks is None:
        if strip(shuffle).op == "meth" and strip(shuffle).a[1] == "permutation":
            ctx.violation("exactly-k", name + ":shuffle", "all ratings are shuffled across users before the last K of each group are taken", where(f), steps)
        return
    if not any(draws(k) for k in ks):
        return
    other = [k for k in ks if not draws(k)]
    rnd = [k for k in ks if draws(k)]
    if not other:
        ctx.violation("exactly-k", name + ":shuffle", "all ratings are shuffled across users before the last K of each group are taken", where(f), steps)
        return
    if other[0] is not arr and behind(other[0])[0] is not arr:
        ctx.violation("exactly-k", name + ":shuffle", "the shuffle is not by user", where(f), steps)
        return
    r = rnd[0]
    if r.op == "meth" and r.a[1] in ("random", "random_sample", "rand"):
        return
    if r.op == "meth" and r.a[1] == "uniform" and not r.a[2] and not any(k in ("low", "high") for k, _ in (r.a[3] if len(r.a) > 3 else ())):
        return
    if r.op == "bin" and r.a[0] == "*" and any(is_const(x) and abs(cval(x)) > 1 or x.op == "param" for x in r.a[1:]):
        ctx.violation("exactly-k", name + ":shuffle", "the random keys added to the group numbers can exceed one, so ratings move between users", where(f), steps)
        return
    ctx.saw("not_understood", name + ": shuffle " + str(r)[:80])
