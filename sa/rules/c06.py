"""C06: user-indexed and item-indexed data are never mixed up."""
import ast

from .. import api
from .. import model as M
from .. import native as NV
from .. import query as Q
from .. import spaces as S
from . import c12 as C12
from ..terms import NONE, const, cval, is_const, mk
from .c04 import is_sorted

MINIMUM = {"selections": 5, "combinations": 5}
TOPK = {"implicit.cpu.topk.topk"}
QUERY_SIDE = {"recommend": "U", "similar_users": "U", "similar_items": "I"}
RETURNS = {"recommend": "I", "similar_items": "I", "similar_users": "U", "recommend_all": "I", "rank_items": "I"}
ID_ARGS = {"userid": "U", "userids": "U", "users": "U", "filter_users": "U", "itemid": "I", "itemids": "I", "items": "I", "filter_items": "I"}
FIRST = {"recommend": "U", "similar_items": "I", "similar_users": "U", "_user_factor": "U", "_item_factor": "I", "recalculate_user": "U", "recalculate_item": "I",
         "rank_items": "U", "partial_fit_users": "U", "partial_fit_items": "I", "explain": "U"}
ROWS = {"user_items": ("U", ("userid", "userids")), "Cui": ("U", ("userid", "userids")), "item_users": ("I", ("itemid", "itemids", "items")),
        "Ciu": ("I", ("itemid", "itemids", "items"))}


def check(ctx):
    proj = ctx.proj
    ctx.rule("select", "an id, mask or position only selects along an axis that ranges over the same set (users, items, or positions in the same list)")
    ctx.rule("combine", "arrays combined with one another (products, rows stored together, norms with factors, filters with candidates) agree on the set they share")
    ctx.rule("solve", "factors of one side are solved from the other side's factors and Gram matrix")
    ctx.rule("attribute", "user attributes are given user-indexed data, item attributes item-indexed data")
    ctx.rule("answer", "the ids returned are ids of items (recommend, similar_items) or users (similar_users), translated back from positions in a subset")
    ctx.rule("bounds", "ids and sizes are only compared with the number of users or items of the same kind")
    ctx.rule("forward", "ids handed to another model method are ids of the kind that method takes")
    ctx.assume("the documented meaning of public parameters: user_items is users x items, item_users items x users; userid / itemid / items / users / filter_items hold ids of the named kind")
    for k in api.model_classes(proj):
        c = Checker(ctx, k)
        ms = sorted(api.all_methods(proj, k).items(), key=lambda x: (not x[0].startswith("fit"), x[0]))
        for n, f in ms:
            if f.is_abstract or n.startswith("_") and n not in ("_user_factor", "_item_factor"):
                continue
            if n in ("save", "load"):
                continue
            c.entry(f)
    for f in standalone(proj):
        Checker(ctx, None).entry(f)
    scorer(ctx)


def scorer(ctx):
    """the native item-item scorer: its stored arrays and parameters stand for what the models hand it"""
    k = NV.scorer_class(ctx.proj)
    init = k and (k.methods.get("__cinit__") or k.methods.get("__init__"))
    if not init:
        return
    alias = {}

    def hook(st, kind, node, d):
        if kind == "set" and d[0].op == "self":
            alias[mk("attr", d[0], d[1])] = d[2]

    NV.run(ctx, init, k, hook=hook, traced=False)
    own = [p for p in init.params if p != "self"]
    for n, f in sorted(k.methods.items()):
        if n.startswith("__"):
            continue
        c = Checker(ctx, None)
        given, _ = C12.passed(ctx, f)
        c.alias = dict(alias, **{})
        c.alias.update(given)
        c.square = own[0] if own else None
        c.entry(f)


def standalone(proj):
    out = []
    for m in proj.modules.values():
        if m.name in ("implicit.evaluation", "implicit._nearest_neighbours", "implicit.utils", "implicit.nearest_neighbours"):
            for f in m.funcs.values():
                if not f.name.startswith("_") and (not f.cfunc or m.name == "implicit.evaluation"):
                    out.append(f)
    return sorted(out, key=lambda f: f.qual)


class Checker:
    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.index, self.alias, self.square = {}, {}, None
        self.f = None

    # -- one entry point

    def rows(self, f):
        out = {}
        params = f.params + f.kwonly
        for m, (side, ids) in ROWS.items():
            if m not in params:
                continue
            own = [p for p in ids if p in params]
            if m == "item_users" and f.name in ("recommend", "similar_items"):
                own = []
            if own:
                out[m] = ("S", mk("param", own[0]))
            elif f.name.startswith("fit"):
                out[m] = side
        cols = {}
        own = [p for p in params if p != "self"]
        if self.cls is not None and f.name == "fit" and own:
            out[own[0]], cols[own[0]] = "U", "I"
        if self.cls is None:
            for m in ("train_user_items", "test_user_items", "user_items", "ratings", "users"):
                if m in params:
                    out[m], cols[m] = "U", "I"
            if "X" in params:
                out["X"], cols["X"] = "rows", "columns"
        return out, cols

    def entry(self, f):
        self.f = f
        self.scanned = set()
        self.sp = S.Spaces(*self.rows(f), self.index)
        self.sp.alias.update(self.alias)
        if self.square is not None:
            self.sp.rows[self.square] = self.sp.cols[self.square] = "I"
        self.label = (self.cls.qual if self.cls else f.qual) + ("." + f.name if self.cls else "")
        opts = dict(hook=self.hook, opaque=set(TOPK))
        if f.name in S.ANSWERS or self.cls is None and not f.is_kernel:
            e, paths = api.run(self.ctx, f, self.cls, **opts)
        else:
            e, paths = NV.run(self.ctx, f, self.cls, traced=False, **opts)
        for p in paths:
            self.bounds(p)
        want = RETURNS.get(f.name) if self.cls else None
        if want:
            for p in paths:
                if p.kind == "ret":
                    self.answer(p, want)

    def bounds(self, p):
        """ids are compared with how many there are of the same kind"""
        self.sp.at(p.st)
        seen = set()
        for facts in p.st.full_facts():
            for t in facts:
                if t in seen or t.op != "cmp" or t.a[0] not in ("<", "<=", ">", ">=", "==", "!="):
                    continue
                seen.add(t)
                x, y = t.a[1], t.a[2]
                if not hasattr(x, "op") or not hasattr(y, "op"):
                    continue
                for a, b in ((self.sp.vals(x), self.sp.count(y)), (self.sp.vals(y), self.sp.count(x)), (self.sp.count(x), self.sp.count(y))):
                    if isinstance(b, tuple) and b[0] == "S" and len(b) == 2 and hasattr(b[1], "op") and b[1].op == "param":
                        b = ID_ARGS.get(b[1].a[0])
                        b = b if b != a else None
                    if a in ("U", "I") and b in ("U", "I"):
                        self.ctx.obligation("bounds", "%s:%s" % (self.label, short(t)))
                        self.ctx.count("selections")
                        if a != b:
                            self.ctx.violation("bounds", "%s:%s %s %s" % (self.label, short(x), t.a[0], short(y)), "ids or the number of %s checked against the number of %s" % (S.name(a), S.name(b)),
                                               self.f.where if hasattr(self.f, "where") else self.f.qual, [str(t)[:300]])
                            break

    def answer(self, p, want):
        self.sp.at(p.st)
        v = p.value
        if v.op == "tuple" and len(v.a[0]) == 2:
            ids = v.a[0][0]
        elif v.op in ("call", "alloc", "meth"):
            ids = mk("sub", v, const(0))
        else:
            ids = v
        got = self.sp.vals(ids)
        self.ctx.obligation("answer", self.label)
        if got is None:
            b = M.ident(ids)
            if b.op in ("call", "alloc") and b.a[0] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.array") and ids is b:
                return      # nothing was ranked
            self.ctx.saw("not_understood", "%s: returned ids %s" % (self.label, str(ids)[:150]))
            return
        self.ctx.count("answers")
        if got != want:
            self.ctx.violation("answer", self.label, "returns %s where ids of %s are expected" % (S.name(got), S.name(want)), self.f.where if hasattr(self.f, "where") else self.f.qual, [str(ids)[:300]])

    # -- events

    def hook(self, st, kind, node, d):
        self.sp.at(st)
        fn = getattr(self, "on_" + kind, None)
        if fn is not None:
            fn(st, node, d)

    def where(self, st, node):
        fr = st.frames[-1].func
        return "%s:%s" % (fr.mod.relpath, getattr(node, "lineno", "?"))

    def fail(self, rule, st, node, what, msg):
        fr = st.frames[-1].func
        self.ctx.violation(rule, "%s:%s:%s" % (self.label, fr.name, what), msg, self.where(st, node), [])

    def same(self, rule, st, node, what, a, b, msg):
        """msg is formatted with the names of the two spaces"""
        if a is None or b is None:
            return
        if "F" in (a, b) and not (isinstance(a, str) and isinstance(b, str)):
            return      # a single vector where a list could be given
        self.ctx.obligation(rule, "%s:%s" % (self.label, what))
        self.ctx.count("selections" if rule == "select" else "combinations")
        if a != b:
            self.fail(rule, st, node, what, msg % (S.name(a), S.name(b)))

    def on_access(self, st, node, d):
        base, idx = d[0], d[1]
        if self.sp.pair(mk("sub", base, idx)) is None:
            self.select(st, node, base, idx)
        self.scan(st, node, base)

    def select(self, st, node, base, idx):
        sp = self.sp
        axis = 0
        for x in idx.a[0] if idx.op == "tuple" else (idx,):
            if is_const(x) and cval(x) is None:
                continue
            if x.op != "slice":
                v = sp.axis(x, 0) if sp.mask(x) else sp.vals(x)
                self.same("select", st, node, "%s[%s]" % (short(base), short(x)), v, sp.axis(base, axis), "%%s used to select from %s, indexed by %%s" % short(base))
            axis += 1

    def on_mut(self, st, node, d):
        target, how, idx, val = d[0], str(d[1]), d[2], d[3]
        sp = self.sp
        if how == "setitem" and idx is not NONE:
            self.select(st, node, target, idx)
            parts = idx.a[0] if idx.op == "tuple" else (idx,)
            if parts and not parts[0].op == "slice" and not sp.scalar(parts[0]) and not sp.mask(parts[0]) and sp.axis(parts[0], 0) is not None:
                self.same("combine", st, node, "%s[%s]=" % (short(target), short(parts[0])), sp.axis(val, 0), sp.positions(parts[0]), "rows of %s stored at %s")
            v = sp.vals(val) if hasattr(val, "op") else None
            o = M.ident(target)
            if v is not None and v in ("U", "I") and o.op in ("call", "alloc") and o.a[0] in ("numpy.zeros", "numpy.empty", "numpy.full"):
                have = sp.stored.setdefault(o, v)
                self.same("combine", st, node, "ids stored in %s" % short(target), v, have, "ids of %s stored among ids of %s")
        if hasattr(val, "op"):
            self.scan(st, node, val)
        if how == "setitem" and hasattr(idx, "op") and idx is not NONE:
            self.scan(st, node, idx)

    def on_set(self, st, node, d):
        o, a, val = d[0], d[1], d[2]
        sp = self.sp
        if o.op == "self":
            for k, want in enumerate(S.ATTRS.get(a, ())):
                got = sp.axis(val, k)
                if got is None and k == 0 and "norms" in a:
                    got = sp.axis(val, 1)
                self.same("attribute", st, node, "%s axis %d" % (a, k), got, want, "self." + a + " is given data indexed by %s, not %s")
            if a in S.GRAMS:
                self.same("attribute", st, node, a, sp.gram(val), S.GRAMS[a], "self." + a + " sums over %s, not %s")
            f = sp.filled.get(M.ident(val))
            if f is not None:
                self.index[a] = f
        if hasattr(val, "op"):
            self.scan(st, node, val)

    # -- calls

    def on_enter(self, st, node, d):
        qual, env = d[0], dict(d[1])
        name = qual.rsplit(".", 1)[-1]
        self.kernel(st, node, name, [v for v in env.values() if hasattr(v, "op")])
        if name in FIRST:
            self.forward(st, node, name, None, env)

    def on_call(self, st, node, d):
        q = d[0]
        sp = self.sp
        if q.startswith("method:"):
            recv, args, kws = d[1]
            name, kws = q[7:], dict(kws)
            if name == "topk":
                names = ("items", "query", "k", "item_norms", "filter_query_items", "filter_items")
                b = dict(zip(names, args))
                b.update(kws)
                b.setdefault("filter_query_items", b.pop("query_filter", NONE))
                b.setdefault("filter_items", b.pop("item_filter", NONE))
                self.topk(st, node, b)
            elif name == "add_item" and args:
                self.fill(recv, sp.vals(args[0]))
            elif name in ("insert", "find", "count", "foreach") and len(args) == 1 or name == "add" and len(args) == 2 and multiplier(recv):
                self.bag(st, node, recv, name, args)
            elif name in ("add", "addDataPointBatch", "add_with_ids") and args:
                ids = kws.get("ids") or (args[1] if len(args) > 1 else None)
                v = sp.vals(ids) if ids is not None else sp.axis(args[0], 0)
                u = Q.unwrap(args[0])
                if ids is None and v is None and u.op in ("call", "alloc") and u.a[0] == "numpy.delete":
                    v = ("S", sp.key(u))        # numbered after rows were taken out
                self.fill(recv, v)
            elif name == "assign_rows" and len(args) == 2:
                self.same("select", st, node, "assign_rows", sp.vals(args[0]), sp.axis(recv, 0), "%s used as rows of a matrix over %s")
                if sp.axis(args[0], 0) is not None:
                    self.same("combine", st, node, "assign_rows", sp.axis(args[1], 0), sp.positions(args[0]), "rows of %s stored at %s")
            elif name == "resize" and len(args) == 2:
                n = args[0].a[1] if args[0].op == "bin" and args[0].a[0] == "+" else args[0]
                v = sp.vals(n)
                self.same("combine", st, node, "resize", v if v is not None else sp.count(n), sp.axis(recv, 0), "a number of %s used to size a matrix over %s")
            elif name == "least_squares" and len(args) >= 4:
                self.solver(st, node, *args[:4])
            elif name == "calculate_yty" and len(args) >= 2:
                sp.grams[M.ident(args[1])] = sp.axis(args[0], 0)
                sp.memo = {}
            elif name == "calculate_loss" and len(args) >= 3:
                self.solver(st, node, args[0], args[1], None, args[2])
            elif name in FIRST:
                ptr = [x for x in args if M.ident(x).op == "attr" and M.ident(x).a[1] == "indptr"]
                if ptr:
                    self.same("select", st, node, "%s row" % name, sp.vals(args[0]), sp.axis(M.ident(ptr[0]).a[0], 0), "row %s of a matrix indexed by %s")
                else:
                    self.forward(st, node, name, args, kws)
            self.kernel(st, node, name, list(args) + list(kws.values()))
            allargs = [recv] + list(args) + list(kws.values())
        else:
            x = d[1]
            if len(x) == 2 and isinstance(x[0], tuple) and not (len(x[0]) == 2 and isinstance(x[0][0], str)):
                args, kws = x[0], dict(x[1])
            else:
                args, kws = (), dict(x)
            if q.rsplit(".", 1)[-1] in FIRST and kws:
                self.forward(st, node, q.rsplit(".", 1)[-1], None, kws)
            if q.rsplit(".", 1)[-1] == "topk" and kws:
                self.topk(st, node, kws)
            if q.startswith("scipy.sparse.") and args and args[0].op == "tuple":
                self.build(st, node, args[0].a[0], kws)
            self.kernel(st, node, q.rsplit(".", 1)[-1], list(args) + list(kws.values()))
            allargs = list(args) + list(kws.values())
        for a in allargs:
            if hasattr(a, "op"):
                self.scan(st, node, a)

    def on_pure(self, st, node, d):
        q = d[0]
        if q.startswith("method:"):
            recv, args, _ = d[1]
            if q[7:] in ("find", "count") and len(args) == 1:
                self.bag(st, node, recv, q[7:], args)
        else:
            args, kws = d[1]
            if args and args[0].op == "tuple":
                self.build(st, node, args[0].a[0], dict(kws))
            for a in args:
                self.scan(st, node, a)

    def bag(self, st, node, recv, name, args):
        """sets of ids, and accumulators indexed by id"""
        sp = self.sp
        o = M.ident(sp.alias.get(recv, recv))
        size = sp.count(o.a[1][0]) if multiplier(o) and o.a[1] else None
        if name == "foreach":
            if size is not None:
                sp.bags[M.ident(args[0])] = size
                sp.memo = {}
            return
        v = sp.vals(args[0])
        have = size if size is not None else sp.bags.get(o)
        if name == "insert" and have is None:
            if v is not None:
                sp.bags[o] = v
            return
        self.same("combine", st, node, "%s()" % name, v, have, "%s looked up or counted among %s")

    def fill(self, recv, s):
        if s is not None:
            self.sp.filled[M.ident(recv)] = s
            o = M.ident(recv)
            if o.op == "attr":
                self.index[o.a[1]] = s
            for (b, a), v in (self.sp.st.heap.items() if self.sp.st is not None else ()):
                if b.op == "self" and hasattr(v, "op") and M.ident(v) is o:
                    self.index[a] = s

    def topk(self, st, node, b):
        sp = self.sp
        b = {k: v for k, v in b.items() if v is not NONE}
        items, query = b.get("items"), b.get("query")
        if items is None or query is None:
            return
        f = sp.axis(items, 0)
        self.ctx.count("rankings")
        n = b.get("item_norms")
        if n is not None:
            x = sp.axis(n, 0)
            self.same("combine", st, node, "topk norms", x if x is not None else sp.axis(n, 1), f, "norms of %s used with factors of %s")
        n = b.get("filter_items")
        if n is not None and not empty(st, n):
            self.same("combine", st, node, "topk filter_items", sp.vals(n), f, "%s are filtered out of %s")
        n = b.get("filter_query_items")
        if n is not None:
            self.same("combine", st, node, "topk filter_query_items", sp.axis(n, 1), f, "columns over %s filtered out of %s")
            self.same("combine", st, node, "topk filter_query_items rows", sp.axis(n, 0), sp.axis(query, 0), "filter rows over %s for queries over %s")
        want = QUERY_SIDE.get(self.f.name)
        if want is not None:
            self.same("combine", st, node, "topk query", sp.side(query), want, "the query vectors come from %s, not %s")

    def solver(self, st, node, C, X, YtY, Y):
        sp = self.sp
        self.same("solve", st, node, "solved rows", sp.axis(X, 0), sp.axis(C, 0), "factors of %s solved from rows of %s")
        self.same("solve", st, node, "fixed factors", sp.axis(Y, 0), sp.axis(C, 1), "factors of %s used for columns of %s")
        if YtY is not None:
            self.same("solve", st, node, "Gram matrix", sp.gram(YtY), sp.axis(Y, 0), "Gram matrix over %s used with factors of %s")

    def kernel(self, st, node, name, vals):
        """a Gram matrix handed over together with the column numbers of a sparse matrix"""
        sp = self.sp
        grams = [g for g in (sp.gram(v) for v in vals if hasattr(v, "op")) if g is not None]
        if len(grams) != 1:
            return
        for v in vals:
            i = M.ident(v) if hasattr(v, "op") else None
            if i is not None and i.op == "attr" and i.a[1] == "indices":
                self.same("solve", st, node, "%s Gram matrix" % name, grams[0], sp.vals(v), "Gram matrix over %s used for columns of %s")

    def build(self, st, node, parts, kws):
        sp = self.sp
        shape = kws.get("shape")
        if shape is not None and shape.op == "tuple" and len(shape.a[0]) == 2:
            n = [sp.count(x) for x in shape.a[0]]
        elif shape is not None and shape.op == "attr" and shape.a[1] == "shape":
            n = [sp.axis(shape.a[0], k) for k in (0, 1)]
        else:
            n = [None, None]
        if len(parts) == 2 and parts[1].op == "tuple" and len(parts[1].a[0]) == 2:
            for k in (0, 1):
                v = sp.vals(parts[1].a[0][k])
                # positions in a list fit on the axis the list was taken from: what counts is how the matrix is used
                if not (isinstance(v, tuple) and isinstance(n[k], str)):
                    self.same("combine", st, node, "matrix axis %d" % k, v, n[k], "%s placed on an axis of %s")
                self.same("combine", st, node, "matrix entries %d" % k, sp.axis(parts[1].a[0][k], 0), sp.axis(parts[0], 0), "%s listed with values of %s")
        elif len(parts) == 3:
            self.same("combine", st, node, "matrix axis 1", sp.vals(parts[1]), n[1], "%s placed on an axis of %s")

    def forward(self, st, node, name, args, kws):
        sp = self.sp
        kws = {k: v for k, v in kws.items() if hasattr(v, "op") and v is not NONE}
        first = args[0] if args else None
        for k in ("userid", "userids", "itemid", "itemids"):
            if first is None and k in kws and ID_ARGS[k] == FIRST[name]:
                first = kws[k]
        if args and len(args) > 1 and name != "similar_items":
            kws.setdefault("user_items" if FIRST[name] == "U" else "item_users", args[1])
        if first is not None:
            self.same("forward", st, node, "%s ids" % name, sp.vals(first), FIRST[name], name + " is given %s where it takes ids of %s")
        for k, want in ID_ARGS.items():
            if k in kws and kws[k] is not first:
                if name == "similar_users" and k == "filter_users" or k in ("items", "filter_items", "users"):
                    self.same("forward", st, node, "%s %s" % (name, k), sp.vals(kws[k]), want, name + " is given %s where it takes ids of %s")
        for m, (cols, side) in {"user_items": ("I", "U"), "item_users": ("U", "I")}.items():
            v = kws.get(m)
            if v is None:
                continue
            self.same("forward", st, node, "%s %s columns" % (name, m), sp.axis(v, 1), cols, name + " is given a matrix with columns over %s, not %s")
            if first is not None and not sp.scalar(first) and FIRST[name] == side:
                a = sp.axis(first, 0)
                if a is not None:
                    self.same("forward", st, node, "%s %s rows" % (name, m), sp.axis(v, 0), sp.positions(first), name + " is given matrix rows over %s for %s")

    # -- products inside a value

    def scan(self, st, node, t):
        key = (st.frames[-1].func.qual, t)
        if key in self.scanned:
            return
        self.scanned.add(key)
        sp = self.sp
        a = b = None
        if t.op == "meth" and t.a[1] == "dot" and t.a[2]:
            a, b = t.a[0], t.a[2][0]
        elif t.op in ("call", "alloc") and t.a[0] in ("numpy.dot", "numpy.matmul") and len(t.a[1]) == 2:
            a, b = t.a[1]
        elif t.op == "bin" and t.a[0] == "@":
            a, b = t.a[1], t.a[2]
        if a is not None:
            self.same("combine", st, node, "%s . %s" % (short(a), short(b)), sp.axis(a, 1), sp.axis(b, 0), "product of columns over %s with rows over %s")
        if t.op in ("call", "alloc") and t.a[0] == "numpy.bincount" and t.a[1]:
            n = dict(t.a[2]).get("minlength") or (t.a[1][2] if len(t.a[1]) > 2 else None)
            if n is not None and sp.vals(t.a[1][0]) in ("U", "I") and sp.count(n) in ("U", "I"):
                self.same("combine", st, node, "bincount", sp.vals(t.a[1][0]), sp.count(n), "occurrences of %s counted in an array with an entry for each of the %s")
        if t.op in ("call", "alloc") and t.a[0] == "numpy.searchsorted" and len(t.a[1]) >= 2 and M.kwget(t.a[2], "sorter") is None and len(t.a[1]) < 4:
            hay = t.a[1][0]
            self.ctx.obligation("select", self.label + ":searchsorted")
            if not is_sorted(hay) and Q.unwrap(hay).op == "param":
                self.fail("select", st, node, "searchsorted", "ids are translated to positions by binary search in the caller's %s, which is in no particular order" % short(Q.unwrap(hay)))
        for x, y in joined(t):
            if sp.vals(x) not in ("U", "I") and sp.vals(y) not in ("U", "I"):
                continue
            self.same("combine", st, node, "joined ids", sp.vals(x), sp.vals(y), "ids of %s joined with ids of %s")
        for x in subterms(t):
            self.scan(st, node, x)


def joined(t):
    """pairs of arrays put after one another"""
    xs = ()
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.r_", "numpy.append", "numpy.concatenate", "numpy.hstack", "numpy.union1d", "numpy.intersect1d", "numpy.setdiff1d"):
        xs = t.a[1]
        if len(xs) == 1 and xs[0].op in ("tuple", "list") and isinstance(xs[0].a[0], tuple):
            xs = xs[0].a[0]
    return list(zip(xs, xs[1:]))


def multiplier(t):
    return t.op in ("call", "alloc", "new") and "SparseMatrixMultiplier" in str(t.a[0])


def empty(st, t):
    """the path already found this list to have no elements"""
    return all(no_elements(f, t) for f in st.full_facts())


def no_elements(facts, t):
    while True:
        n = mk("call", "builtins.len", (t,), ())
        for k in (mk("truth", t), mk("truth", n)):
            if facts.get(k) is False:
                return True
        if facts.get(mk("isnone", t)) is True:
            return True
        for c, v in facts.items():
            if c.op == "cmp" and n in c.a and v is True and c.a[0] == "==" and any(is_const(x) and cval(x) == 0 for x in c.a[1:] if hasattr(x, "op")):
                return True
        if t.op in ("call", "alloc") and t.a[1] and t.a[0] in S.CALLS:
            t = t.a[1][0]
        elif t.op in ("inpl", "cast"):
            t = t.a[0] if t.op == "inpl" else t.a[-1]
        else:
            return False


def subterms(t):
    for x in t.a:
        if hasattr(x, "op"):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, "op"):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if hasattr(z, "op"):
                            yield z


def short(t):
    t = M.ident(t)
    if t.op == "param":
        return t.a[0]
    if t.op == "attr":
        return "%s.%s" % (short(t.a[0]), t.a[1])
    if t.op == "self":
        return "self"
    if t.op == "sub":
        return "%s[]" % short(t.a[0])
    if t.op == "meth":
        return "%s.%s()" % (short(t.a[0]), t.a[1])
    if t.op in ("call", "alloc"):
        return "%s()" % t.a[0].rsplit(".", 1)[-1]
    return t.op
