"""Index spaces: which set (users, items, positions in a list the caller gave, stored entries of a matrix) an axis or a value ranges over.

A space is "U", "I", ("S", array) for positions in that array, ("N", matrix, transposed) for positions of its stored entries, or None
when nothing is known.  Two known spaces that differ are a mix-up; None agrees with everything.
"""
from . import bounds as B
from . import model as M
from .terms import NONE, cval, is_const, mk

USER_IDS = {"userid", "userids", "users", "filter_users"}
ITEM_IDS = {"itemid", "itemids", "items", "filter_items", "selected_items"}
MATRICES = {"user_items": ("U", "I"), "item_users": ("I", "U"), "train_user_items": ("U", "I"), "test_user_items": ("U", "I"), "Cui": ("U", "I"), "Ciu": ("I", "U")}
ATTRS = {"user_factors": ("U", "F"), "item_factors": ("I", "F"), "user_norms": ("U",), "item_norms": ("I",), "_user_norms": ("U",), "_item_norms": ("I",),
         "_user_norms_host": ("U",), "_item_norms_host": ("I",), "similarity": ("I", "I")}
GRAMS = {"_YtY": "I", "YtY": "I", "_XtX": "U", "XtX": "U"}
ANSWERS = {"recommend": "I", "similar_items": "I", "similar_users": "U", "rank_items": "I"}
SEARCH = {"get_nns_by_vector": 0, "knnQuery": 0, "get_nns_by_item": 0, "search": 1}
BATCH = {"knnQueryBatch": "knnQuery"}
WRAPPERS = {"implicit.gpu.Matrix", "implicit.gpu.CSRMatrix", "implicit.gpu.COOMatrix", "implicit.gpu.IntVector", "implicit.gpu._cuda.Matrix",
            "implicit.gpu._cuda.CSRMatrix", "implicit.gpu._cuda.COOMatrix", "implicit.gpu._cuda.IntVector"}
SAME = B.SAME | {"to_numpy", "tolist", "flatten", "squeeze", "to_csr", "to_coo", "to_csc"}
CALLS = B.ELEMENTWISE | WRAPPERS | {"numpy.atleast_1d", "builtins.list", "builtins.tuple", "numpy.nan_to_num", "numpy.asanyarray", "numpy.int32", "numpy.int64",
                                    "builtins.int", "numpy.clip", "numpy.squeeze", "builtins.sorted", "numpy.ravel", "numpy.log1p", "numpy.log10", "numpy.square", "numpy.negative", "numpy.reciprocal"}
REORDER = {"numpy.sort", "builtins.sorted"}


def known_side(s):
    return s in ("U", "I")


def agree(a, b):
    return a is None or b is None or a == b


def name(s):
    if s == "U":
        return "users"
    if s == "I":
        return "items"
    if s == "F":
        return "factors"
    if isinstance(s, str):
        return s
    if s[0] == "S":
        return "positions in %s" % str(s[1])[:50]
    if s[0] == "P":
        return "positions in a part of %s" % name(s[1])
    if s[0] == "N":
        return "stored entries of %s%s" % (str(s[1])[:40], ".T" if s[2] else "")
    return str(s)


class Spaces:
    def __init__(self, rows=None, cols=None, index=None):
        self.rows = rows or {}        # matrix parameter -> space of its rows
        self.cols = cols or {}        # and of its columns
        self.index = index or {}      # attribute holding a search index -> space it was filled with
        self.filled = {}              # search index object -> space it was filled with
        self.grams = {}               # output of a Gram computation -> space summed over
        self.alias = {}               # field or parameter -> the array it holds
        self.stored = {}              # array filled element by element -> space of what is stored
        self.bags = {}                # set or accumulator of ids -> space of its members
        self.st = None
        self.memo = {}

    def at(self, st):
        if st is not self.st:
            self.st = st
            self.memo = {}

    def get(self, what, t, k, fn):
        t = self.alias.get(t, t)
        key = (what, t, k)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = fn(t, k)
        return self.memo[key]

    def axis(self, t, k):
        return self.get("axis", t, k, self.axis_)

    def vals(self, t):
        return self.get("vals", t, 0, lambda x, _: self.vals_(x))

    def count(self, t):
        return self.get("count", t, 0, lambda x, _: self.count_(x))

    def gram(self, t):
        return self.get("gram", t, 0, lambda x, _: self.gram_(x))

    def side(self, t):
        return self.get("side", t, 0, lambda x, _: self.side_(x))

    # -- identity of an id array, up to conversions that keep its order

    def key(self, t):
        for _ in range(40):
            if t.op == "cast":
                t = t.a[-1]
            elif t.op == "inpl" and "sort" not in str(t.a[1]) and "shuffle" not in str(t.a[1]) and "reverse" not in str(t.a[1]):
                t = t.a[0]
            elif t.op == "meth" and t.a[1] in SAME and t.a[1] != "sorted_indices":
                t = t.a[0]
            elif t.op in ("call", "alloc") and t.a[0] in CALLS and t.a[0] not in REORDER and t.a[0] not in ("numpy.clip", "builtins.int", "numpy.ones_like", "numpy.zeros_like") and len(t.a[1]) >= 1:
                t = t.a[1][0]
            else:
                return t
        return t

    def positions(self, t):
        a = self.axis(t, 0)
        return a if a is not None else ("S", self.key(t))

    # -- matrices

    def matrix(self, t):
        """(matrix, transposed) below shape keeping conversions"""
        flip = False
        for _ in range(60):
            if t.op in ("inpl", "upd"):
                t = t.a[0]
            elif t.op == "cast":
                t = t.a[-1]
            elif t.op == "meth" and t.a[1] in SAME:
                t = t.a[0]
            elif t.op == "meth" and t.a[1] == "transpose" and not t.a[2] or t.op == "attr" and t.a[1] == "T":
                t, flip = t.a[0], not flip
            elif t.op in ("call", "alloc") and t.a[0] == "numpy.transpose" and len(t.a[1]) == 1:
                t, flip = t.a[1][0], not flip
            elif t.op in ("call", "alloc") and t.a[0] in CALLS and t.a[1] and t.a[1][0].op not in ("tuple", "list"):
                t = t.a[1][0]
            else:
                break
        return t, flip

    def sparse(self, t):
        t, _ = self.matrix(t)
        if t.op == "param" and (t.a[0] in MATRICES or t.a[0] in self.cols) or t.op == "attr" and t.a[1] == "similarity":
            return True
        if t.op == "sub":
            return self.sparse(t.a[0])
        if t.op == "bin" and t.a[0] == "*":
            return self.sparse(t.a[1]) or self.sparse(t.a[2])
        return t.op in ("call", "alloc") and t.a[0].startswith("scipy.sparse.")

    def override(self, t, which):
        """column / row numbers stored into a coordinate matrix after it was made"""
        if self.st is None:
            return None
        for _ in range(30):
            o = M.ident(t)
            v = self.st.heap.get((o, which))
            if v is not None:
                return v
            if o.op == "meth" and o.a[1] in SAME or o.op in ("call", "alloc") and o.a[0] in CALLS and o.a[1]:
                t = o.a[0] if o.op == "meth" else o.a[1][0]
            else:
                return None
        return None

    def axis_(self, t, k):
        if t.op == "inpl" and str(t.a[1]).split(":")[-1].lstrip(".").split("(")[0] in ("sort", "shuffle", "reverse"):
            b = self.axis(t.a[0], k)
            return ("S", t) if isinstance(b, tuple) and b[0] == "S" else None
        if t.op in ("inpl", "upd"):
            return self.axis(t.a[0], k)
        if t.op == "cast":
            return self.axis(t.a[-1], k)
        if t.op == "attr":
            return self.attr_axis(t, k)
        if t.op == "param":
            if t.a[0] in self.cols and k == 1:
                return self.cols[t.a[0]]
            if t.a[0] in self.rows and k == 0:
                return self.rows[t.a[0]]
            if t.a[0] in MATRICES:
                return MATRICES[t.a[0]][1] if k == 1 else None
            if t.a[0] in USER_IDS | ITEM_IDS and k == 0:
                return ("S", t)
            return None
        if t.op == "meth":
            return self.meth_axis(t, k)
        if t.op in ("call", "alloc"):
            return self.call_axis(t, k)
        if t.op == "sub":
            return self.sub_axis(t, k)
        if t.op == "elem":
            return self.axis(t.a[0], k + 1)
        if t.op in ("bin", "cmp"):
            xs = [self.axis(x, k) for x in t.a[1:3]]
            xs = [x for x in xs if x is not None]
            return xs[0] if xs and all(x == xs[0] for x in xs) else None
        if t.op == "un":
            return self.axis(t.a[1], k)
        return None

    def attr_axis(self, t, k):
        o, n = t.a[0], t.a[1]
        if n == "T":
            return self.axis(o, 1 - k) if k < 2 else None
        if n in ATTRS and (o.op == "self" or o.op == "attr" and o.a[1] == "model"):
            s = ATTRS[n]
            if "norms" in n and "host" not in n:
                return s[0]         # one row on the GPU, a vector on the CPU
            return s[k] if k < len(s) else None
        if n == "indptr" and k == 0:
            return self.axis(o, 0)
        if n in ("indices", "data", "col", "row") and k == 0 and self.sparse(o):
            m, f = self.matrix(o)
            return ("N", m, f)
        return None

    def meth_axis(self, t, k):
        o, n, args, kws = t.a[0], t.a[1], t.a[2], dict(t.a[3])
        if n in SAME:
            if k == 1 and n.startswith("to"):
                c = self.override(o, "col")
                if c is not None:
                    return self.vals(c)
            return self.axis(o, k)
        if n == "transpose" and not args:
            return self.axis(o, 1 - k) if k < 2 else None
        if n == "reshape":
            s = args[0].a[0] if len(args) == 1 and args[0].op == "tuple" else args
            return self.count(s[k]) if k < len(s) else None
        if n == "dot" and args:
            return self.axis(o, 0) if k == 0 else self.axis(args[0], k)
        if n in B.RANDOM:
            s = kws.get("size")
            if s is None and n in ("random", "standard_normal", "rand", "randn", "random_sample") and args:
                s = args[0] if args[0].op == "tuple" else mk("tuple", tuple(args))
            if s is None and "low" in kws and args:
                s = mk("tuple", tuple(args))
            if s is not None and s.op == "tuple" and k < len(s.a[0]):
                return self.count(s.a[0][k])
            return None
        if n == "sum" and k == 0:
            a = kws.get("axis") or (args[0] if args else None)
            return self.axis(o, 1 - cval(a)) if a is not None and is_const(a) and cval(a) in (0, 1) else None
        if n == "mean":
            return None
        if n in ("get_norms",):
            return self.axis(o, 0) if k == 0 else None
        if n == "take" and args:
            return self.sub_axis(mk("sub", o, args[0]), k)
        if n in ("recalculate_user", "_user_factor", "recalculate_item", "_item_factor") and args and k == 0:
            return self.positions(args[0])
        return None

    def call_axis(self, t, k):
        n, args = t.a[0], t.a[1]
        kws = dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        short = n.rsplit(".", 1)[-1]
        if n in REORDER and args:
            b = self.axis(args[0], k)
            return ("S", t) if isinstance(b, tuple) and b[0] == "S" else None
        if n in CALLS and args and args[0].op not in ("tuple", "list"):
            return self.axis(args[0], k)
        if n == "numpy.transpose" and len(args) == 1:
            return self.axis(args[0], 1 - k) if k < 2 else None
        if n in B.ALLOC or short == "zeros" and "gpu" in n:
            s = kws.get("shape") or (args[0] if args else None)
            if s is not None and short == "zeros" and "gpu" in n:
                s = mk("tuple", tuple(args))
            if s is not None and s.op == "tuple":
                return self.count(s.a[0][k]) if k < len(s.a[0]) else None
            if s is not None and s.op == "attr" and s.a[1] == "shape":
                return self.axis(s.a[0], k)
            return self.count(s) if s is not None and k == 0 else None
        if n == "numpy.unique" and k == 0 and args and not kws:
            b = self.axis(args[0], 0)
            return ("S", t) if isinstance(b, tuple) and b[0] == "S" else None
        if n == "numpy.arange" and k == 0 and len(args) == 1:
            return self.count(args[0])
        if n == "numpy.bincount" and args and k == 0:
            return self.vals(args[0])
        if n in ("numpy.ediff1d", "numpy.diff") and args and k == 0:
            b = self.matrix(args[0])[0]
            return self.axis(b.a[0], 0) if b.op == "attr" and b.a[1] == "indptr" else None
        if n == "numpy.linalg.norm" and args and k == 0:
            a = kws.get("axis")
            if a is not None and is_const(a) and cval(a) in (1, -1):
                return self.axis(args[0], 0)
            if a is not None and is_const(a) and cval(a) == 0:
                return self.axis(args[0], 1)
            return None
        if short == "calculate_norms" and args:
            return self.axis(args[0], 0) if k == 1 else None
        if n == "numpy.dot" and len(args) == 2:
            return self.axis(args[0], 0) if k == 0 else self.axis(args[1], k)
        if n in ("numpy.append",) and args and "axis" in kws and is_const(kws["axis"]):
            return self.axis(args[0], k) if cval(kws["axis"]) != k else None
        if n in ("numpy.concatenate", "numpy.vstack", "numpy.hstack") and args and args[0].op in ("list", "tuple") and isinstance(args[0].a[0], tuple) and args[0].a[0]:
            xs = [self.axis(x, k) for x in args[0].a[0]]
            xs = [x for x in xs if x is not None]
            return xs[0] if xs and all(x == xs[0] for x in xs) else None
        if n.startswith("scipy.sparse.") and args and args[0].op == "tuple":
            s = kws.get("shape")
            if s is not None and s.op == "tuple" and k < len(s.a[0]):
                return self.count(s.a[0][k])
            parts = args[0].a[0]
            if len(parts) == 2 and parts[1].op == "tuple" and k < 2:
                return self.vals(parts[1].a[0][k])
            if len(parts) == 3 and k == 1:
                return self.vals(parts[1])
        if short == "all_pairs_knn" and k < 2:
            b = dict(t.a[2]).get("users") if isinstance(t.a[2], tuple) else None
            b = b if b is not None else (args[0] if args and not is_const(args[0]) else None)
            return self.axis(b, 1) if b is not None else None
        if short in ("bm25_weight", "tfidf_weight", "normalize"):
            b = dict(t.a[2]).get("X") if isinstance(t.a[2], tuple) else None
            return self.axis(b, k) if b is not None else None
        return None

    def pair(self, t):
        """(name, arguments) when t is the first or second array of a ranked answer"""
        if t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) in (0, 1) and not isinstance(cval(t.a[1]), bool):
            b = t.a[0]
            if b.op == "elem" and b.a[0].op == "meth" and b.a[0].a[1] in BATCH:
                return BATCH[b.a[0].a[1]], b.a[0], cval(t.a[1])
            if b.op == "meth":
                return b.a[1], b, cval(t.a[1])
            if b.op in ("call", "alloc"):
                return b.a[0].rsplit(".", 1)[-1], b, cval(t.a[1])
        return None

    def flag(self, b, n):
        kws = dict(b.a[2]) if isinstance(b.a[2], tuple) else {}
        return n in kws and is_const(kws[n]) and bool(cval(kws[n]))

    def arg(self, b, i, *names):
        kws = dict(b.a[3]) if b.op == "meth" else dict(b.a[2]) if isinstance(b.a[2], tuple) else {}
        for n in names:
            if n in kws:
                return kws[n]
        args = b.a[2] if b.op == "meth" else b.a[1]
        if b.op != "meth" and kws and i is not None and not (args and not is_const(args[0])):
            return None
        return args[i] if i is not None and i < len(args) else None

    def sub_axis(self, t, k):
        p = self.pair(t)
        if p is not None and p[0] in ("topk",):
            q = self.arg(p[1], 1, "query")
            return self.axis(q, 0) if q is not None and k == 0 else None
        if p is not None and p[0] in ANSWERS and k == 0:
            q = self.arg(p[1], 0, "userid", "itemid")
            return self.axis(q, 0) if q is not None and not self.scalar(q) else None
        if p is not None and (p[0] in ANSWERS or p[0] in SEARCH):
            return None
        if p is not None and p[0] == "unique" and "." in p[1].a[0]:
            return self.axis(p[1].a[1][0], 0) if k == 0 and p[2] == 1 and self.flag(p[1], "return_inverse") and not self.flag(p[1], "return_index") else None
        i = t.a[1]
        parts = i.a[0] if i.op == "tuple" else (i,)
        if any(is_const(x) and cval(x) is None for x in parts):
            return None
        if self.sparse(t.a[0]) and len(parts) == 1:
            x = parts[0]
            if k == 1:
                return self.axis(t.a[0], 1)
            if x.op == "slice":
                return self.part(t.a[0], 0, x)
            return None if self.scalar(x) else self.gathered(x)
        axis = seen = 0
        for x in parts:
            if x.op == "slice":
                if seen == k:
                    return self.axis(t.a[0], axis) if x.a[0] is NONE and x.a[1] is NONE and x.a[2] is NONE else self.part(t.a[0], axis, x)
                seen += 1
            elif not self.scalar(x):
                if seen == k:
                    return self.part(t.a[0], axis, x) if self.mask(x) else self.gathered(x)
                seen += 1
            axis += 1
        return self.axis(t.a[0], k - seen + axis)

    def part(self, base, axis, x):
        """positions in what a mask or a slice keeps of an axis"""
        a = self.axis(base, axis)
        return ("P", a, x) if a is not None else None

    def gathered(self, x):
        if self.mask(x):
            return None
        return self.positions(x)

    def mask(self, x):
        x = M.ident(x)
        return x.op == "cmp" or x.op == "un" or x.op == "bin" and x.a[0] in "&|" or x.op in ("call", "alloc") and x.a[0].rsplit(".", 1)[-1] in ("isin", "in1d", "isnan", "logical_not", "logical_and")

    def scalar(self, x):
        x = M.ident(x)
        if x.op in ("lv", "elem") or is_const(x) and isinstance(cval(x), int):
            return True
        if x.op == "sub":
            b = M.ident(x.a[0])
            return b.op == "attr" and b.a[1] in ("indices", "indptr", "row", "col", "shape") and self.scalar(x.a[1]) or self.scalar(x.a[1]) and b.op in ("call", "alloc")
        if x.op == "bin":
            return self.scalar(x.a[1]) and self.scalar(x.a[2])
        if x.op == "cast":
            return self.scalar(x.a[-1])
        if x.op == "param" and self.st is not None:
            return self.st.facts.get(mk("truth", mk("call", "numpy.isscalar", (x,), ()))) is True
        return x.op == "callv"

    # -- values

    def vals_(self, t):
        if t.op in ("inpl", "upd"):
            v = self.vals(t.a[0])
            w = t.a[2] if t.op == "upd" else t.a[3] if t.a[1] == "setitem" else None
            return v if v is not None or not hasattr(w, "op") else self.vals(w)
        if t.op == "cast":
            return self.vals(t.a[-1])
        if t.op == "param":
            return "U" if t.a[0] in USER_IDS else "I" if t.a[0] in ITEM_IDS else None
        if t.op == "elem":
            return self.vals(t.a[0])
        if t.op == "comp" and isinstance(t.a[1], tuple) and len(t.a[1]) == 1:
            return self.vals(t.a[1][0])
        if t.op == "lv":
            lo, hi = t.a[2], t.a[3]
            if is_const(lo) and cval(lo) == 0:
                return self.count(hi)
            a, b = self.entries(lo), self.entries(hi)
            return a if a is not None and a == b else None
        if t.op == "bin" and t.a[0] in "+-" and is_const(t.a[2]) and cval(t.a[2]) == 1:
            return self.vals(t.a[1])
        if M.ident(t) in self.stored:
            return self.stored[M.ident(t)]
        if t.op == "attr" and t.a[1] == "second":
            e = M.ident(t.a[0])
            r = M.ident(e.a[0]) if e.op in ("elem", "sub") else e
            return self.bags.get(M.ident(r.a[0])) if r.op == "attr" and r.a[1] == "results" else None
        if t.op == "attr":
            if t.a[1] in ("indices", "col", "row") and (t.a[1] != "row" or True):
                k = 0 if t.a[1] == "row" else 1
                o = self.override(t.a[0], t.a[1] if t.a[1] != "indices" else "col")
                if o is not None and o is not t:
                    return self.vals(o)
                return self.axis(t.a[0], k) if self.sparse(t.a[0]) else None
            return None
        if t.op == "meth":
            if t.a[1] in SAME or t.a[1] in ("max", "min", "clip", "take"):
                return self.vals(t.a[0])
            if t.a[1] in ("argsort", "argpartition", "argmax"):
                return self.axis(t.a[0], 0)
            if t.a[1] == "searchsorted":
                return self.axis(t.a[0], 0)
            if t.a[1] in ANSWERS and t.a[1] == "rank_items":
                return None
            return None
        if t.op in ("call", "alloc"):
            n, args = t.a[0], t.a[1]
            if n in CALLS or n in ("numpy.repeat", "numpy.unique", "numpy.max", "numpy.min", "numpy.amax", "numpy.sort", "numpy.append", "numpy.setdiff1d", "numpy.delete", "numpy.stack", "numpy.vstack"):
                if n in ("numpy.ones_like", "numpy.zeros_like", "numpy.empty_like"):
                    return None
                return self.vals(args[0]) if args else None
            if n in ("numpy.r_", "numpy.concatenate", "numpy.hstack") and args:
                if len(args) == 1 and args[0].op in ("tuple", "list") and isinstance(args[0].a[0], tuple):
                    args = args[0].a[0]
                xs = [self.vals(x) for x in args]
                return xs[0] if xs and all(x == xs[0] for x in xs) else None
            if n in ("builtins.max", "builtins.min") and args:
                xs = {self.vals(a) for a in args} - {None}
                return xs.pop() if len(xs) == 1 and len(args) == 1 else None
            if n == "numpy.arange" and len(args) == 1:
                return self.count(args[0])
            if n in ("numpy.argsort", "numpy.argpartition", "numpy.flatnonzero") and args:
                return self.axis(args[0], 0)
            if n == "numpy.searchsorted" and args:
                return self.axis(args[0], 0)
            return None
        if t.op == "sub":
            p = self.pair(t)
            if p is not None:
                r = self.answer(*p)
                if r is not False:
                    return r
                if p[0] == "unique":
                    return self.vals(p[1].a[1][0]) if p[2] == 0 and p[1].a[1] else None
            b = M.ident(t.a[0])
            if b.op in ("call", "alloc") and b.a[0] in ("numpy.where", "numpy.nonzero") and len(b.a[1]) == 1:
                return self.axis(b.a[1][0], 0)
            if b.op == "attr" and b.a[1] == "shape":
                return None
            return self.vals(t.a[0])
        return None

    def entries(self, t):
        """stored entries of a matrix, from one of its row pointers"""
        t = M.ident(t)
        if t.op == "sub":
            b = self.alias.get(t.a[0], t.a[0])
            while b.op in ("inpl", "upd", "cast") or b.op == "meth" and b.a[1] in SAME:
                b = b.a[-1] if b.op == "cast" else b.a[0]
                b = self.alias.get(b, b)
            if b.op == "attr" and b.a[1] == "indptr":
                m, f = self.matrix(b.a[0])
                return ("N", m, f)
        return None

    def answer(self, n, b, i):
        """space of the ids in a ranked answer; False when it is not one"""
        if n == "topk":
            if i == 1:
                return None
            f = self.arg(b, 0, "items", "factors", "item_factors")
            return self.axis(f, 0) if f is not None else None
        if n in SEARCH:
            if i != SEARCH[n]:
                return None
            o = b.a[0] if b.op == "meth" else None
            if o is None:
                return None
            if o.op == "attr":
                return self.index.get(o.a[1])
            return self.filled.get(M.ident(o))
        if n in ANSWERS:
            return ANSWERS[n] if i == 0 else None
        return False

    # -- numbers that count something

    def count_(self, t):
        t = M.ident(t)
        if t.op == "cast":
            return self.count(t.a[-1])
        if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]):
            return self.axis(t.a[0].a[0], cval(t.a[1]))
        if t.op in ("call", "alloc"):
            if t.a[0] == "builtins.len" and t.a[1]:
                return self.axis(t.a[1][0], 0)
            if t.a[0] in ("builtins.min", "min", "builtins.int") and t.a[1]:
                xs = {self.count(a) for a in t.a[1]} - {None}
                return xs.pop() if len(xs) == 1 else None
        if t.op == "attr" and t.a[1] == "nnz":
            m, f = self.matrix(t.a[0])
            return ("N", m, f)
        return None

    # -- sums of outer products

    def gram_(self, t):
        t = M.ident(t)
        if t in self.grams:
            return self.grams[t]
        if t.op == "cast":
            return self.gram(t.a[-1])
        if t.op == "attr" and t.a[1] in GRAMS:
            return GRAMS[t.a[1]]
        if t.op == "meth" and t.a[1] == "dot" and t.a[2]:
            return self.contract(t.a[0], t.a[2][0])
        if t.op in ("call", "alloc") and t.a[0] == "numpy.dot" and len(t.a[1]) == 2:
            return self.contract(*t.a[1])
        if t.op == "bin" and t.a[0] == "@":
            return self.contract(t.a[1], t.a[2])
        if t.op == "bin" and t.a[0] in "+-":
            xs = [self.gram(x) for x in t.a[1:3]]
            xs = [x for x in xs if x is not None]
            return xs[0] if len(xs) == 1 else None
        return None

    def contract(self, a, b):
        x, y = self.axis(a, 1), self.axis(b, 0)
        return x if x is not None and x == y else None

    # -- whose factors a vector is taken from

    def side_(self, t):
        t, _ = self.matrix(t)
        if t.op == "attr" and t.a[1] in ("user_factors", "item_factors"):
            return "U" if t.a[1] == "user_factors" else "I"
        if t.op == "sub":
            return self.side(t.a[0])
        if t.op == "meth" and t.a[1] in ("_user_factor", "recalculate_user"):
            return "U"
        if t.op == "meth" and t.a[1] in ("_item_factor", "recalculate_item"):
            return "I"
        if t.op == "meth" and t.a[1] == "reshape":
            return self.side(t.a[0])
        if t.op in ("call", "alloc") and t.a[0] == "numpy.append" and t.a[1]:
            return self.side(t.a[1][0])
        if t.op == "bin" and t.a[0] in "*/":
            xs = {self.side(x) for x in t.a[1:3]} - {None}
            return xs.pop() if len(xs) == 1 else None
        return None
