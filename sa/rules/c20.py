"""C20: every ALS solver, the loss and explanations are built from the same weighted normal equations."""
import itertools

from .. import api
from .. import linalg as L
from .. import model as M
from .. import native as NV
from ..project import AnalysisBroken
from ..terms import NONE, cval, is_const, mk, walk

MINIMUM = {"solvers": 1}
SMALL = 1e-6


def check(ctx):
    proj = ctx.proj
    ctx.rule("equations", "the factors stored for a row are the solution of (gram + regularization*I + sum (|c|-1) y y') x = sum of c y over c > 0, "
                          "exactly or by conjugate gradient steps on exactly that system")
    ctx.rule("entries", "every entry of the row takes part once: the loop covers [indptr[u], indptr[u+1])")
    ctx.rule("empty", "rows without entries get zero factors from the native solvers")
    ctx.rule("early", "conjugate gradient only stops early when the residual of the system is negligible")
    ctx.rule("scaling", "the confidences given to a solver are the caller's values times alpha exactly once, the regularization is the model's")
    ctx.rule("loss", "the training loss is the weighted squared error of the same model plus regularization, over the same total weight")
    ctx.rule("explain", "explanations weigh liked items by their confidence through the same equations")
    ctx.assume("alpha is positive; confidences of zero contribute the same under either sign convention")
    models = [c for c in api.model_classes(proj) if c.qual.endswith("AlternatingLeastSquares")]
    if not models:
        raise AnalysisBroken("no ALS model found")
    seen = {}
    for c in models:
        fit(ctx, c, seen)
        for n in ("recalculate_user", "recalculate_item"):
            f = proj.method(c, n)
            if f is None or f.is_abstract:
                continue
            if api.is_gpu(c):
                gpu_recalculate(ctx, c, f)
            else:
                recalculate(ctx, c, f, n)
        f = proj.method(c, "explain")
        if f is not None and not f.is_abstract and not api.is_gpu(c):
            explain(ctx, c, f)
    for q, roles in sorted(seen.items()):
        f = proj.find_func(q)
        if f is None:
            continue
        if roles["what"] == "loss":
            loss(ctx, f, roles)
        else:
            solver(ctx, f, roles)
    rows(ctx)


# -- running a solver

def param(n):
    return mk("param", n)


def entry_loop(rng):
    """True for the range of the entries of a row, a string for one that misses some, None otherwise"""
    if rng.op in ("call", "alloc") and str(rng.a[0]).rsplit(".", 1)[-1] == "nonzeros":
        return True
    if rng.op != "range":
        return None
    lo, hi = pointer(rng.a[0]), pointer(rng.a[1])
    if lo is None or hi is None or lo[0] is not hi[0]:
        return None
    d = NV.minus(hi[1], lo[1])
    if {k for k, v in d.items() if v} - {1}:
        return None
    if d.get(1, 0) != 1 or lo[2] or hi[2]:
        return "entries %s to %s of the row" % (lo[2] or 0, "end%+d" % hi[2] if hi[2] else "end") if d.get(1, 0) == 1 else "rows %s" % d.get(1, 0)
    if not (is_const(rng.a[2]) and cval(rng.a[2]) == 1):
        return "every %s-th entry of the row" % rng.a[2]
    return True


def pointer(t):
    """indptr[u] + k -> (indptr, linear form of u, k)"""
    lf = NV.lin(t)
    subs = [k for k, v in lf.items() if k != 1 and v]
    if len(subs) != 1 or lf[subs[0]] != 1:
        return None
    s = subs[0]
    if s.op != "sub":
        return None
    b = M.ident(s.a[0])
    if not (b.op == "attr" and b.a[1] == "indptr" or b.op == "param" and "indptr" in b.a[0]):
        return None
    return b, NV.lin(s.a[1]), lf.get(1, 0)


def plans(ctx, f, cls):
    """three ways to follow the loops: two inner iterations per row, two entries per row, no entries"""
    e, paths = NV.run(ctx, f, cls, opaque=set())
    ent, steps = set(), set()
    for p in paths:
        depth = 0
        for ev in p.events:
            if ev.kind == "loop":
                n = node_of(e, ev.d[0])
                if n is not None:
                    if entry_loop(ev.d[1]):
                        ent.add(n)
                    elif depth == 1 and not is_dim(ev.d[1]):
                        steps.add(n)
                depth += 1
            elif ev.kind == "loopend":
                depth -= 1
    out = [(e, paths)]
    if steps:
        out.append(NV.run(ctx, f, cls, opaque=set(), unroll=lambda n, d: 2 if n in steps else 1))
    if ent:
        out.append(NV.run(ctx, f, cls, opaque=set(), unroll=lambda n, d: 2 if n in ent else 1))
    out.append(NV.run(ctx, f, cls, opaque=set(), zero_iter=True))
    return out


def node_of(e, sid):
    for k, (n, node) in e._sites.items():
        if n == sid:
            return node
    return None


def is_dim(rng):
    return rng.op == "range" and any(x.op == "attr" and x.a[1] == "shape" for x in walk(rng.a[1])) and rng.a[1].op == "sub"


def entries(p):
    """entries followed in each loop over a row; None when the loops of the path disagree (no such run exists)"""
    counts = set()
    cur = {}
    bad = None
    for ev in p.events:
        if ev.kind == "loop":
            x = entry_loop(ev.d[1])
            if x:
                cur[ev.d[0]] = 0
                if x is not True:
                    bad = (x, ev)
        elif ev.kind == "iter" and ev.d[0] in cur:
            cur[ev.d[0]] += 1
        elif ev.kind == "loopend" and ev.d[0] in cur:
            counts.add(cur.pop(ev.d[0]))
    return counts, bad


def row_length(t):
    """+1 when t is indptr[u+1] - indptr[u], -1 for its opposite, None otherwise"""
    return row_length_of(NV.lin(t))


def emptiness(p):
    """True / False / None: the row is known to have no entries"""
    for k, v in p.st.facts.items():
        if k.op == "truth":
            if row_length(k.a[0]):
                return not v
        elif k.op == "cmp":
            lf = NV.minus(NV.lin(k.a[2]), NV.lin(k.a[1]))
            c = lf.pop(1, 0)
            s = row_length_of(lf)
            if s is None:
                continue
            # s * n + c  (>, >=, ==) 0 with n the number of entries
            op = k.a[0]
            if op in ("==", "!="):
                if c == 0:
                    return v == (op == "==")
            elif op in ("<", "<="):
                low = 1 if op == "<" else 0
                if s > 0:                     # v: n >= low - c
                    least = low - c
                    if least == 1:
                        return not v
                else:                         # v: n <= c - low
                    if c - low == 0:
                        return v
    return None


def row_length_of(lf):
    lf = {k: v for k, v in lf.items() if v}
    if len(lf) != 2:
        return None
    (a, x), (b, y) = lf.items()
    if {x, y} != {1, -1}:
        return None
    p, q = pointer(a), pointer(b)
    if p is None or q is None or p[0] is not q[0] or p[2] or q[2]:
        return None
    d = {k: v for k, v in NV.minus(q[1], p[1]).items() if v}
    if set(d) - {1} or abs(d.get(1, 0)) != 1:
        return None
    return y * d[1]


def consistent(V, p, n):
    for k, v in p.st.facts.items():
        if k.op != "cmp" or k.a[0] not in ("<", "<=", "==", "!="):
            continue
        try:
            d = L.add(V.val(k.a[1]), V.val(k.a[2]), -1)
            s = V.sign(d)
        except (L.Unknown, KeyError):
            continue
        if s is None:
            continue
        r = {"<": s < 0, "<=": s <= 0, "==": s == 0, "!=": s != 0}[k.a[0]]
        if r != v:
            return False
    return True


class Conf:
    """what the equations are about: the sparse matrix, the factors solved for and against, regularization and alpha"""

    def __init__(self, matrix, Y, reg, X=None, alpha=None, caches=None, numbers=None):
        self.matrix, self.Y, self.reg, self.X, self.alpha, self.caches = matrix, Y, reg, X, alpha, caches or {}
        self.numbers = numbers or {}

    def values(self, p, signs):
        nums = {self.reg: "reg"}
        nums.update(self.numbers)
        ones = []
        if self.alpha is not None:
            nums[self.alpha] = "alpha"
            for k, v in p.st.facts.items():
                if k.op == "cmp" and k.a[0] == "==" and v and self.alpha in (k.a[1], k.a[2]):
                    o = k.a[2] if k.a[1] is self.alpha else k.a[1]
                    if is_const(o) and cval(o) == 1:
                        ones.append(self.alpha)
        mats = {self.Y} | ({self.X} if self.X is not None else set())
        return L.Values(mats, nums, signs, ones, self.caches)

    def confidence(self, V, u, k):
        c = L.atom(("c", self.matrix, V.row(u) if not isinstance(u, tuple) else u, k))
        if self.alpha is not None and self.alpha not in V.ones:
            c = L.mul(c, L.atom("alpha"))
        return c

    def y(self, V, u, k):
        return L.basis(("v", "row", self.Y, ("idx", self.matrix, V.row(u) if not isinstance(u, tuple) else u, k)))

    def system(self, V, u, n, reg=True):
        """(A, b) of row u with n entries"""
        A = L.basis(("M", "gram", self.Y))
        if reg:
            A = L.add(A, L.mul(L.atom("reg"), L.basis(L.IDENTITY)))
        b = {}
        for k in range(n):
            c, y = self.confidence(V, u, k), self.y(V, u, k)
            w = c if V.signs[k] > 0 else L.neg(c)
            A = L.add(A, L.mul(L.add(w, L.num(-1)), L.outer(y, y)))
            if V.signs[k] > 0:
                b = L.add(b, L.mul(c, y))
        return A, b


def cg(A, b, x, steps):
    """conjugate gradient from x: [(x, residual square)] after 0, 1, .. steps"""
    r = L.add(b, L.dot(A, x), -1)
    p = r
    rs = L.dot(r, r)
    keep = {L.key(r)}
    out = [(x, rs, keep, L.key(r), L.key(p))]
    for _ in range(steps):
        Ap = L.dot(A, p)
        keep = keep | {L.key(p), L.key(Ap), L.key(r)}
        a = L.div(rs, L.dot(p, Ap))
        x = L.add(x, L.mul(a, p))
        r = L.add(r, L.mul(a, Ap), -1)
        new = L.dot(r, r)
        out.append((x, new, keep, L.key(r), L.key(p)))
        p = L.add(r, L.mul(L.div(new, rs), p))
        rs = new
        out[-1] = out[-1][:4] + (L.key(p),)
    return out


def forms_in(v, seen=None, dirs=None):
    """(every named vector inside a value, those a Gram matrix is applied to)"""
    seen = set() if seen is None else seen
    dirs = set() if dirs is None else dirs

    def go(x, under):
        if isinstance(x, L.Form):
            if under:
                dirs.add(x)
            if x not in seen:
                seen.add(x)
                for (s, b), c in x.d.items():
                    go(s, False)
                    go(b, False)
        elif isinstance(x, tuple):
            if x[:2] == ("v", "Mv"):
                go(x[3], True)
            elif x[:2] == ("v", "sum"):
                go(x[2], under)
            else:
                for y in x:
                    go(y, False)

    for (s, b), c in v.items():
        go(s, False)
        go(b, False)
    return seen, dirs


def signed(n):
    for s in itertools.product((1, -1), repeat=n):
        yield dict(enumerate(s))


def solver(ctx, f, roles):
    conf = Conf(param(roles["matrix"]), param(roles["Y"]), param(roles["reg"]), param(roles["X"]))
    ctx.saw("solvers", f.qual)
    native = f.mod.relpath.endswith(".pyx")
    runs = plans(ctx, f, None)
    for e, paths in runs:
        for p in paths:
            if p.kind == "ret":
                follow(ctx, f.qual, p, conf, native, paths is runs[-1][1])


def recalculate(ctx, c, f, n):
    me = api.selfterm(c)
    other = "item_factors" if n.endswith("user") else "user_factors"
    Y = mk("attr", me, other)
    conf = Conf(param(f.params[2]), Y, mk("attr", me, "regularization"), None, mk("attr", me, "alpha"), caches(ctx, c))
    ctx.saw("solvers", "%s.%s" % (c.qual, n))
    runs = plans(ctx, f, c)
    for e, paths in runs:
        for p in paths:
            if p.kind == "ret":
                written = {M.ident(x.a[0].a[0]) for ev in p.events if ev.kind == "mut" for x in [ev.d[0]] if x.op == "addr" and x.a[0].op == "sub"}
                written = [w for w in written if w.op == "alloc"]
                if len(written) == 1:
                    conf.X = written[0]
                follow(ctx, "%s.%s" % (c.qual, n), p, conf, True, paths is runs[-1][1])


def caches(ctx, c):
    """attributes that hold the Gram matrix of a factor matrix, as their properties fill them"""
    out = {}
    proj = ctx.proj
    me = api.selfterm(c)
    for n, f in api.all_methods(proj, c).items():
        if not f.is_property:
            continue
        e, paths = NV.run(ctx, f, c, opaque=set())
        for p in paths:
            for ev in p.events:
                if ev.kind == "set" and ev.d[0] is me:
                    for t in (mk("attr", me, "item_factors"), mk("attr", me, "user_factors")):
                        V = L.Values({t}, {mk("attr", me, "regularization"): "reg"})
                        try:
                            v = V.val(ev.d[2])
                        except L.Unknown:
                            continue
                        if v == L.basis(("M", "gram", t)):
                            out[mk("attr", me, ev.d[1])] = t
    return out


def coverage(ctx, name, p, conf):
    """the loop over rows starts at the first and ends after the last"""
    if conf.X is None:
        return
    for ev in p.events:
        if ev.kind == "loop" and ev.d[1].op == "range" and not entry_loop(ev.d[1]):
            lo, hi, step = ev.d[1].a[:3]
            rows = mk("sub", mk("attr", conf.X, "shape"), mk("const", "int", 0))
            lf = NV.lin(hi)
            if lf.get(rows) == 1 and not [k for k, v in lf.items() if v and k not in (1, rows)]:
                ctx.obligation("entries", name + ":rows")
                if lf.get(1, 0) or not is_const(lo) or cval(lo) != 0 or not is_const(step) or cval(step) != 1:
                    ctx.violation("entries", name + ":rows", "the loop over rows runs from %s to %s" % (lo, hi), ev.where, api.path_steps(p.events))
            return


def follow(ctx, name, p, conf, native, only_empty=False):
    counts, bad = entries(p)
    coverage(ctx, name, p, conf)
    if bad is not None:
        ctx.obligation("entries", name)
        ctx.violation("entries", name, "only %s are used" % bad[0] if not bad[0].startswith("rows") else "the loop covers %s per factor row" % bad[0], bad[1].where, api.path_steps(p.events))
        return
    if len(counts) > 1:
        return
    n = counts.pop() if counts else 0
    if only_empty and n:
        return
    empty = emptiness(p)
    if empty is True and n or empty is False and not n:
        return
    for signs in signed(n):
        V = conf.values(p, signs)
        try:
            broken = None
            for ev in p.events:
                V.event(ev)
        except (L.Unknown, KeyError) as x:
            broken = x
        if broken is not None:
            ctx.saw("not_understood", "%s: %s" % (name, str(broken)[:80]))
            continue
        if not consistent(V, p, n):
            continue
        outcome(ctx, name, p, conf, V, n, native, empty)


def steps_of(p):
    """(iterations of the inner solver loop, it was left early)"""
    cur, depth, best = {}, 0, None
    for ev in p.events:
        if ev.kind == "loop":
            if depth >= 1 and not entry_loop(ev.d[1]) and not is_dim(ev.d[1]):
                cur[ev.d[0]] = 0
            depth += 1
        elif ev.kind == "iter" and ev.d[0] in cur:
            cur[ev.d[0]] += 1
        elif ev.kind == "loopend":
            depth -= 1
            if ev.d[0] in cur:
                best = (cur.pop(ev.d[0]), len(ev.d) > 1 and ev.d[1] == "break", ev)
    return best


def small_residual(V, p, rs, keep=()):
    """the path only continues here when rs is below a tiny bound; None when that cannot be told"""
    doubt = False
    found = []
    for k, v in p.st.facts.items():
        if k.op != "cmp" or not v or not is_const(k.a[2]) or not isinstance(cval(k.a[2]), (int, float)):
            continue
        if k.a[0] in ("<", "<=") and cval(k.a[2]) <= SMALL or k.a[0] == "==" and cval(k.a[2]) == 0:
            x = k.a[1]
            if x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("sqrt", "sqrtf"):
                x = x.a[1][0]
            try:
                found.append(V.val(x))
            except L.Unknown:
                doubt = True
    if any(x == rs for x in found):
        return True
    for x in found:
        try:
            if L.equal(x, rs, keep):
                return True
        except L.Unknown:
            doubt = True
    return None if doubt else False


def outcome(ctx, name, p, conf, V, n, native, empty):
    written = {k: v for k, v in V.mem.items() if k[0] == "row" and k[1] is not conf.Y}
    wrong = [k for k in V.mem if k[0] == "row" and k[1] is conf.Y]
    last = [ev for ev in p.events if ev.kind in ("mut", "call")]
    where = last[-1].where if last else ""
    if wrong:
        ctx.violation("equations", name + ":side", "the factors solved against are overwritten", where, api.path_steps(p.events))
        return
    st = steps_of(p)
    if not written:
        u = row_loop(p)
        if u is None or st is not None and st[0]:
            return
        if n == 0:
            if native and conf.X is not None and (empty is True or st is None or not st[0]) and started(p):
                ctx.obligation("empty", name)
                A, b = conf.system(V, u, 0)
                ctx.violation("empty", name, "the factors of a row without entries keep their old values", where, api.path_steps(p.events))
            return
        if conf.X is None:
            return
        ctx.obligation("early", name)
        A, b = conf.system(V, u, n)
        x0 = L.basis(("v", "row", conf.X, u))
        seq = cg(A, b, x0, 0)
        if st is not None:
            return      # loop of zero steps
        if small_residual(V, p, seq[0][1]) is False:
            ctx.violation("early", name, "a row with entries is left unsolved although its residual was not found to be negligible",
                          where, api.path_steps(p.events))
        return
    for (_, X, u), got in written.items():
        if isinstance(u, tuple):
            ctx.violation("equations", name + ":row", "the solution is stored at another row", where, api.path_steps(p.events))
            continue
        try:
            judge(ctx, name, p, conf, V, n, native, X, u, got, st, where)
        except L.Unknown as x:
            ctx.saw("not_understood", "%s: %s" % (name, str(x)[:80]))


def judge(ctx, name, p, conf, V, n, native, X, u, got, st, where):
    steps = api.path_steps(p.events)
    if n == 0:
        if native:
            ctx.obligation("empty", name)
            if got:
                ctx.violation("empty", name, "a row without entries gets %s" % L.show(got)[:160], where, steps)
        return
    ctx.obligation("equations", name)
    A, b = conf.system(V, u, n)
    solved = [bb for (s, bb) in got if bb is not None and bb[:2] == ("v", "solve")]
    if solved or not got or st is None:
        want = V.solve(A, b)
        if L.equal(got, want):
            return
        ctx.violation("equations", name + ":" + sign_text(V), difference(got, A, b), where, steps)
        return
    K, left, ev = st
    x0 = L.basis(("v", "row", X, u))
    seq = cg(A, b, x0, max(K, 1))
    try:
        same = K < len(seq) and L.equal(got, seq[K][0], seq[K - 1][2] if K > 1 else ())
    except L.Unknown:
        if K != 2 or not other_direction(got, seq):
            raise
        same = False
    if same:
        if left:
            ctx.obligation("early", name)
            if small_residual(V, p, seq[K][1], seq[K - 1][2] if K > 1 else ()) is False:
                ctx.violation("early", name, "the iterations stop although the residual was not found to be negligible", ev.where, steps)
        return
    if K == 0:
        return
    one = seq[1][0]
    ctx.violation("equations", name + ":" + sign_text(V) + (":step%d" % K if K > 1 else ""),
                  "after %d step%s the factors are %s; conjugate gradient on the weighted system gives %s" % (K, "s" if K > 1 else "", clip(got), clip(seq[K][0])) if K == 1 else
                  "step %d of the iteration does not follow from the previous one (directions or step lengths differ from conjugate gradient on the weighted system)" % K, where, steps)


def other_direction(got, seq):
    """the residual agrees after the first step, but the next step goes along another direction"""
    seen, dirs = forms_in(got)
    r1, p1 = seq[1][3], seq[1][4]
    if r1 not in seen:
        return False
    if p1 in dirs:
        return not L.equal(got, seq[2][0], seq[2][2] | {r1, p1})
    known = seq[1][2] | {r1}
    return any(not L.equal(f.d, p1.d, known) for f in dirs - known) or not (dirs - known)


def clip(v):
    s = L.show(v)
    return s if len(s) < 260 else s[:257] + "..."


def sign_text(V):
    return ",".join("positive" if s > 0 else "negative" for k, s in sorted(V.signs.items())) or "none"


def difference(got, A, b):
    for (s, bb), c in got.items():
        if bb is not None and bb[:2] == ("v", "solve"):
            ga, gb = bb[2].d, L.mul({(s, None): c}, bb[3].d)
            if not L.equal(ga, A):
                return "the system solved is %s, the weighted problem has %s" % (clip(ga), clip(A))
            return "the right hand side is %s, the weighted problem has %s" % (clip(gb), clip(b))
    return "stored is %s, expected the solution of %s with right hand side %s" % (clip(got), clip(A), clip(b))


def row_loop(p):
    for ev in p.events:
        if ev.kind == "loop" and not entry_loop(ev.d[1]):
            sid = ev.d[0]
            for e2 in p.events:
                if e2.kind == "iter" and e2.d[0] == sid:
                    r = ev.d[1]
                    if r.op == "range":
                        return mk("lv", sid, e2.d[1], *r.a)
            return None
    return None


def started(p):
    """an iteration of the row loop was followed"""
    depth = 0
    for ev in p.events:
        if ev.kind == "iter":
            return True
    return False


# -- who calls the solvers with what

def roles_of(ctx, c, ev, me):
    """roles of the arguments of a solver call: by the value passed"""
    items = dict(ev.d[1]) if all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in ev.d[1]) else None
    if items is None:
        return None
    out = {}
    fac = []
    for n, t in items.items():
        o = M.ident(t)
        if o.op == "attr" and o.a[0] is me and o.a[1] == "regularization":
            out["reg"] = n
        elif sparse(t):
            out["matrix"] = n
        elif factor(o, me):
            fac.append((n, factor(o, me)))
    if len(fac) == 2 and "matrix" in out:
        f = ctx.proj.find_func(ev.d[0])
        order = f.params if f else [n for n, _ in fac]
        fac.sort(key=lambda x: order.index(x[0]) if x[0] in order else 99)
        out["X"], out["Y"] = fac[0][0], fac[1][0]
        return out, items
    return None


def sparse(t):
    o = M.ident(t)
    for _ in range(20):
        if o.op == "meth" and o.a[1] in ("tocsr", "transpose", "astype", "copy", "tocoo", "multiply", "sorted_indices"):
            if o.a[1] in ("tocsr", "tocoo"):
                return True
            o = M.ident(o.a[0])
        elif o.op in ("call", "alloc") and o.a[0] in ("implicit.utils.check_csr", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "implicit.gpu.CSRMatrix", "implicit.gpu.COOMatrix"):
            return True
        elif o.op == "bin" and o.a[0] == "*":
            for x in (o.a[1], o.a[2]):
                if sparse(x):
                    return True
            return False
        elif o.op == "attr" and o.a[1] == "T":
            o = M.ident(o.a[0])
        elif o.op == "param":
            return o.a[0] not in ("self",)
        else:
            return False
    return False


def factor(o, me):
    """'user_factors' / 'item_factors' for (a fresh value of) the model's factors"""
    if o.op == "attr" and o.a[0] is me and o.a[1] in ("user_factors", "item_factors"):
        return o.a[1]
    return None


def fit(ctx, c, seen):
    proj = ctx.proj
    f = proj.method(c, "fit")
    if f is None or f.is_abstract:
        return
    ctx.saw("training", c.qual)
    me = api.selfterm(c)
    e, paths = api.run(ctx, f, c, loops=1, opaque=api.SOLVERS | {"implicit.cpu._als.least_squares", "implicit.cpu._als.least_squares_cg", "implicit.cpu._als.calculate_loss"})
    done = set()
    for p in paths:
        gram = {}
        for ev in p.events:
            if ev.kind != "call" or not isinstance(ev.d[0], str):
                continue
            short = ev.d[0].rsplit(".", 1)[-1].replace("method:", "")
            if short in ("least_squares", "least_squares_cg", "calculate_loss", "calculate_yty") or short.startswith(("least_squares", "_least_squares")):
                call(ctx, c, p, ev, me, short, seen, gram, done)


def attr_factor(p, t, me):
    """which of the model's factors a value is (values assigned in this path count)"""
    o = M.ident(t)
    r = factor(o, me)
    if r:
        return r
    for n in ("user_factors", "item_factors"):
        h = p.st.heap.get((me, n))
        if h is not None and M.ident(h) is o:
            return n
    for ev in p.events:
        if ev.kind == "set" and ev.d[0] is me and ev.d[1] in ("user_factors", "item_factors") and M.ident(ev.d[2]) is o:
            return ev.d[1]
    return None


def call(ctx, c, p, ev, me, short, seen, gram, done):
    name = "%s.fit:%s" % (c.qual, short)
    if ev.d[0].startswith("method:"):
        recv, args, kws = ev.d[1]
        if short == "calculate_yty":
            gram[M.ident(args[1])] = (M.ident(args[0]), args[2] if len(args) > 2 else dict(kws).get("regularization"))
            regularization(ctx, name, gram[M.ident(args[1])][1], me, ev, p)
            return
        mats = [a for a in args if sparse(a)]
        if not mats:
            ctx.saw("not_understood", name)
            return
        scaling(ctx, name, mats[0], me, p, ev)
        if short == "calculate_loss":
            r = args[3] if len(args) > 3 else dict(kws).get("regularization")
            regularization(ctx, name, r, me, ev, p)
        elif len(args) > 3:
            g = gram.get(M.ident(args[2]))
            ctx.obligation("scaling", name + ":gram")
            if g is not None and g[0] is not M.ident(args[3]):
                ctx.violation("scaling", name + ":gram", "the Gram matrix belongs to other factors than those solved against", ev.where, api.path_steps(p.events))
        return
    items = {}
    for x in ev.d[1]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            items[x[0]] = x[1]
    f = ctx.proj.find_func(ev.d[0])
    if f is None or not items:
        ctx.saw("not_understood", name)
        return
    roles = {"what": "loss" if "loss" in short else "solver"}
    fac = []
    for n in f.params:
        t = items.get(n)
        if t is None:
            continue
        if attr_factor(p, t, me):
            fac.append(n)
        elif sparse(t):
            roles["matrix"] = n
        elif M.ident(t) is mk("attr", me, "regularization"):
            roles["reg"] = n
    if len(fac) != 2 or "matrix" not in roles:
        ctx.saw("not_understood", "%s: %s" % (name, [(k, str(v)[:30]) for k, v in items.items()]))
        return
    roles["X"], roles["Y"] = fac
    if "reg" not in roles:
        left = [n for n in f.params if "reg" in n and n in items]
        if left:
            roles["reg"] = left[0]
            regularization(ctx, name, items[left[0]], me, ev, p)
        else:
            ctx.saw("not_understood", name + ": regularization")
            return
    ctx.obligation("scaling", name + ":regularization")
    scaling(ctx, name, items[roles["matrix"]], me, p, ev)
    seen.setdefault(ev.d[0], roles)


def regularization(ctx, name, t, me, ev, p):
    ctx.obligation("scaling", name + ":regularization")
    reg = mk("attr", me, "regularization")
    if t is None:
        return
    V = L.Values(set(), {reg: "reg", mk("attr", me, "alpha"): "alpha", mk("attr", me, "factors"): "factors"})
    try:
        v = V.val(t)
    except L.Unknown:
        ctx.saw("not_understood", "%s: regularization %s" % (name, str(t)[:50]))
        return
    if v != L.atom("reg"):
        ctx.violation("scaling", name + ":regularization", "solved with regularization %s instead of the model's" % L.show(v), ev.where, api.path_steps(p.events))


def scaling(ctx, name, m, me, p, ev):
    """the matrix is the caller's matrix with every value times alpha"""
    ctx.obligation("scaling", name + ":alpha")
    alpha = mk("attr", me, "alpha")
    ones = []
    for k, v in p.st.facts.items():
        if k.op == "cmp" and k.a[0] == "==" and v and alpha in (k.a[1], k.a[2]):
            o = k.a[2] if k.a[1] is alpha else k.a[1]
            if is_const(o) and cval(o) == 1:
                ones.append(alpha)
    V = L.Values(set(), {alpha: "alpha", mk("attr", me, "regularization"): "reg"}, {0: 1}, ones)
    try:
        v = V.content(plain(m), ("row", 0))
    except (L.Unknown, KeyError) as x:
        ctx.saw("not_understood", "%s: matrix %s" % (name, str(x)[:60]))
        return
    mons = list(v.items())
    ok = False
    if len(mons) == 1:
        (s, b), k = mons[0]
        cs = [x for x in s if isinstance(x, tuple) and x[0] == "c"]
        al = [x for x in s if x == "alpha"]
        ok = k == 1 and len(cs) == 1 and len(al) == (0 if ones else 1) and len(s) == len(cs) + len(al)
    if not ok:
        ctx.violation("scaling", name + ":alpha", "the confidences used are %s%s, the model is defined with alpha*c" % (L.show(v), " on a path where alpha is not 1" if not ones else ""),
                      ev.where, api.path_steps(p.events))


def plain(m):
    """drop transposes and device copies: they keep the values"""
    def f(t):
        if t.op == "attr" and t.a[1] == "T":
            return t.a[0]
        if t.op == "meth" and t.a[1] == "transpose":
            return t.a[0]
        if t.op in ("call", "alloc") and t.a[0] in ("implicit.gpu.CSRMatrix", "implicit.gpu.COOMatrix") and t.a[1]:
            return t.a[1][0]
        if t.op == "call" and t.a[0] == "implicit.utils.check_csr":
            d = dict(t.a[2])
            return t.a[1][0] if t.a[1] else next(iter(d.values()), t)
        return t
    from ..terms import rewrite
    return rewrite(m, f)


def gpu_recalculate(ctx, c, f):
    me = api.selfterm(c)
    e, paths = api.run(ctx, f, c, loops=1)
    name = "%s.%s" % (c.qual, f.name)
    for p in paths:
        if p.kind != "ret":
            continue
        gram = {}
        for ev in p.events:
            if ev.kind == "call" and ev.d[0] in ("method:least_squares", "method:calculate_yty"):
                recv, args, kws = ev.d[1]
                if ev.d[0].endswith("yty"):
                    regularization(ctx, name, args[2] if len(args) > 2 else dict(kws).get("regularization"), me, ev, p)
                    gram[M.ident(args[1])] = M.ident(args[0])
                    continue
                mats = [a for a in args if sparse(a)]
                if mats:
                    scaling(ctx, name, mats[0], me, p, ev)
                if len(args) > 3 and M.ident(args[2]) in gram and gram[M.ident(args[2])] is not M.ident(args[3]):
                    ctx.violation("scaling", name + ":gram", "the Gram matrix belongs to other factors than those solved against", ev.where, api.path_steps(p.events))


# -- loss

def loss(ctx, f, roles):
    name = f.qual
    conf = Conf(param(roles["matrix"]), param(roles["Y"]), param(roles["reg"]), param(roles["X"]))
    ctx.saw("losses", name)
    m = conf.matrix
    extra = {mk("attr", m, "nnz"): "nnz"}
    for e, paths in plans(ctx, f, None)[:-1]:
        for p in paths:
            if p.kind != "ret":
                continue
            counts, bad = entries(p)
            if bad is not None:
                ctx.violation("entries", name, "only %s are used" % bad[0], bad[1].where, api.path_steps(p.events))
                continue
            if len(counts) != 1:
                continue
            n = counts.pop()
            for signs in signed(n):
                one_loss(ctx, name, f, p, conf, extra, n, signs)


def one_loss(ctx, name, f, p, conf, extra, n, signs):
    conf.numbers = dict(extra)
    V = conf.values(p, signs)
    shape = mk("attr", conf.matrix, "shape")
    V.numbers[mk("sub", shape, mk("const", "int", 0))] = "rows"
    V.numbers[mk("sub", shape, mk("const", "int", 1))] = "cols"
    xs = mk("attr", conf.X, "shape")
    V.numbers[mk("sub", xs, mk("const", "int", 0))] = "rows"
    try:
        for ev in p.events:
            V.event(ev)
        if not consistent(V, p, n):
            return
        got = V.val(p.value)
        lvs = [(mk("lv", ev.d[0], 0, *ev.d[1].a), ev.d[1]) for ev in p.events if ev.kind == "loop" and ev.d[1].op == "range" and not entry_loop(ev.d[1])]
        us = [l for l, r in lvs if r.a[1] is mk("sub", xs, mk("const", "int", 0))]
        vs = [l for l, r in lvs if r.a[1] is mk("sub", mk("attr", conf.Y, "shape"), mk("const", "int", 0))]
        if not us:
            ctx.saw("not_understood", name + ": row loop")
            return
        u = us[0]
        x = L.basis(("v", "row", conf.X, u))
        A, b = conf.system(V, u, n, reg=False)
        weight, liked = {}, {}
        for k in range(n):
            c = conf.confidence(V, u, k)
            weight = L.add(weight, c if V.signs[k] > 0 else L.neg(c))
            if V.signs[k] > 0:          # c * (1 - x.y)^2; a dislike is c * (0 - x.y)^2
                liked = L.add(liked, c)
        want = L.add(liked, L.dot(L.add(L.dot(A, x), b, -2), x))
        norms = L.dot(x, x)
        if vs:
            y = L.basis(("v", "row", conf.Y, vs[0]))
            norms = L.add(norms, L.dot(y, y))
        want = L.add(want, L.mul(L.atom("reg"), norms))
        den = L.add(L.add(weight, L.mul(L.atom("rows"), L.atom("cols"))), L.atom("nnz"), -1)
        want = L.div(want, den)
        ctx.obligation("loss", name)
        if not vs:
            ctx.saw("not_understood", name + ": item norms")
            return
        if not L.equal(got, want):
            ctx.violation("loss", name + ":" + sign_text(V), "the loss is %s; the weighted squared error of the model is %s" % (clip(L.expand(got)), clip(L.expand(want))),
                          p.events[-1].where if p.events else "", api.path_steps(p.events))
    except (L.Unknown, KeyError) as x:
        ctx.saw("not_understood", "%s: %s" % (name, str(x)[:80]))


# -- explain

def explain(ctx, c, f):
    me = api.selfterm(c)
    name = "%s.explain" % c.qual
    ctx.saw("explanations", name)
    P = f.params
    if len(P) < 5:
        ctx.saw("not_understood", name)
        return
    uid, mat, item, weights = (param(x) for x in P[1:5])
    Y = mk("attr", me, "item_factors")
    conf = Conf(mat, Y, mk("attr", me, "regularization"), None, mk("attr", me, "alpha"), caches(ctx, c))
    e, paths = NV.run(ctx, f, c, opaque=set())
    for p in paths:
        if p.kind != "ret":
            continue
        counts, bad = entries(p)
        if bad is not None or len(counts) > 1:
            continue
        n = counts.pop() if counts else 0
        for signs in signed(n):
            V = conf.values(p, signs)
            try:
                if not consistent(V, p, n):
                    continue
                if p.value.op != "tuple" or len(p.value.a[0]) < 3:
                    raise L.Unknown("result")
                A, b = conf.system(V, uid, n)
                given = p.st.facts.get(mk("isnone", weights)) is False
                V.caches = dict(V.caches)
                seed = L.basis(("v", "row", Y, item))
                if given:
                    V.results[weights] = A
                w = V.solve(A, seed)
                want = {}
                pushed = []
                for k in range(n):
                    if V.signs[k] > 0:
                        s = L.mul(conf.confidence(V, uid, k), L.dot(w, conf.y(V, uid, k)))
                        want = L.add(want, s)
                        pushed.append((s, ("idx", mat, uid, k)))
                ctx.obligation("explain", name)
                got = V.val(p.value.a[0][0])
                if not L.equal(got, want):
                    ctx.violation("explain", name + ":total:" + sign_text(V), "the total score is %s, the model's prediction is %s" % (clip(got), clip(want)), f_where(p), api.path_steps(p.events))
                    continue
                if not given:
                    g = V.val(p.value.a[0][2])
                    if not L.equal(g, A):
                        ctx.violation("explain", name + ":weights", "the returned weights factorise %s instead of %s" % (clip(g), clip(A)), f_where(p), api.path_steps(p.events))
                        continue
                contributions(ctx, name, V, p, pushed)
            except (L.Unknown, KeyError) as x:
                ctx.saw("not_understood", "%s: %s" % (name, str(x)[:80]))


def contributions(ctx, name, V, p, pushed):
    for ev in p.events:
        if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("heapq.") and len(ev.d[1][0]) > 1:
            t = ev.d[1][0][1]
            if t.op != "tuple" or len(t.a[0]) != 2:
                continue
            ctx.obligation("explain", name + ":contribution")
            s, i = V.val(t.a[0][0]), V.row(t.a[0][1])
            if not any(L.equal(s, ps) and i == pi for ps, pi in pushed):
                ctx.violation("explain", name + ":contribution", "a contribution of %s is listed; the item contributes %s" % (clip(s), clip(pushed[0][0]) if pushed else "nothing"), ev.where, api.path_steps(p.events))


def f_where(p):
    return p.events[-1].where if p.events else ""


# -- the row iterator of the python solvers

def rows(ctx):
    for f in ctx.proj.all_funcs():
        if f.name != "nonzeros" or f.cls is not None:
            continue
        name = f.qual
        ctx.saw("iterators", name)
        m, row = f.params[:2]
        V = L.Values(set(), {}, {0: 1})
        M0, u0 = param(m), param(row)
        e, paths = NV.run(ctx, f, None)
        for p in paths:
            ctx.obligation("entries", name)
            for ev in p.events:
                if ev.kind == "loop":
                    x = entry_loop(ev.d[1])
                    if x is not None and x is not True:
                        ctx.violation("entries", name, "only %s are visited" % x, ev.where, api.path_steps(p.events))
                elif ev.kind == "yield":
                    t = ev.d[0]
                    if t.op != "tuple" or len(t.a[0]) != 2:
                        ctx.saw("not_understood", "%s: yields %s" % (name, str(t)[:40]))
                        continue
                    try:
                        i, v = V.row(t.a[0][0]), V.val(t.a[0][1])
                    except (L.Unknown, KeyError) as x:
                        ctx.saw("not_understood", "%s: %s" % (name, str(x)[:60]))
                        continue
                    if i != ("idx", M0, u0, 0) or v != L.atom(("c", M0, u0, 0)):
                        ctx.violation("entries", name + ":pair", "an entry is reported as (%s, %s)" % (t.a[0][0], t.a[0][1]), ev.where, api.path_steps(p.events))
