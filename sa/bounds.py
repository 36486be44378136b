"""Symbolic sizes: how large arrays are, how large indices can get, and whether one bounds the other.

Sizes are polynomials over atoms (dimensions of the caller's arrays, scalar parameters, loop variables).  An index is
in range when `size - 1 - index` can be shown to be non-negative from the bounds of the atoms and the facts of the path.
"""
from . import model as M
from .terms import NONE, T, cval, const, is_const, mk, rewrite, walk

SAME = {"tocsr", "tocsc", "tocoo", "astype", "copy", "sorted_indices", "asfptype", "view", "asformat", "ravel"}
ELEMENTWISE = {"numpy.log", "numpy.log2", "numpy.sqrt", "numpy.exp", "numpy.abs", "numpy.cumsum", "numpy.ascontiguousarray", "numpy.asarray",
               "numpy.array", "numpy.copy", "numpy.ones_like", "numpy.zeros_like", "numpy.empty_like", "numpy.sort", "scipy.sparse.csr_matrix",
               "scipy.sparse.coo_matrix", "scipy.sparse.csc_matrix", "implicit.utils.check_csr", "numpy.asfortranarray", "numpy.square"}
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"}
RANDOM = {"random", "standard_normal", "normal", "uniform", "rand", "randn", "random_sample", "integers", "randint", "standard_normal_float32"}
SIZEOF = {"float": 4, "double": 8, "int": 4, "long": 8, "size_t": 8, "unsigned size_t": 8, "long long": 8, "unsigned int": 4, "char": 1}
PAIRS = ("recommend", "similar_items", "similar_users")


# -- polynomials: {(atom, ...) sorted by uid: coefficient}

def num(v):
    return {(): v} if v else {}


def add(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return d


def mul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.uid))
            d[k] = d.get(k, 0) + c * e
            if d[k] == 0:
                del d[k]
    return d


def show(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: (-len(x[0]), [t.uid for t in x[0]])):
        s = "*".join(text(t) for t in m)
        if not m:
            out.append("%+g" % c)
        else:
            out.append(("+" if c > 0 else "-") + (" " if out else "") + ("" if abs(c) == 1 else "%g*" % abs(c)) + s)
    r = " ".join(out)
    return r[1:].strip() if r.startswith("+") else r


def text(t):
    if t.op == "dim":
        return "%s.shape[%d]" % (str(t.a[0])[:60], t.a[1])
    if t.op == "nnz":
        return "nnz(%s)" % str(t.a[0])[:60]
    return str(t)[:60]


class Sizes:
    def __init__(self, kind=None, alias=None):
        self.kind = kind or (lambda t: None)      # "num", "arr", "sparse" or None
        self.alias = alias or {}                   # term -> term it stands for
        self.equal = {}                            # atom -> polynomial it is known to equal
        self.values = {}                           # call result -> inclusive upper bound
        self.vectors = {}                          # vector (identity) -> [polynomials its size may reach, exactly]
        self.threads = None
        self.memo = {}

    # -- the matrix an expression is a version of

    def root(self, t):
        """(matrix, transposed): strip conversions that keep the shape"""
        flip = False
        for _ in range(60):
            t = M.ident(t)
            if t in self.alias:
                t = self.alias[t]
                continue
            if t.op == "cast":
                t = t.a[-1]
            elif t.op == "meth" and t.a[1] in SAME:
                t = t.a[0]
            elif t.op == "meth" and t.a[1] == "transpose" and not t.a[2]:
                t, flip = t.a[0], not flip
            elif t.op == "attr" and t.a[1] == "T":
                t, flip = t.a[0], not flip
            elif t.op in ("call", "alloc") and t.a[0] == "numpy.transpose" and len(t.a[1]) == 1:
                t, flip = t.a[1][0], not flip
            elif t.op in ("call", "alloc") and t.a[0] in ELEMENTWISE and len(t.a[1]) == 1 and t.a[1][0].op not in ("tuple", "list"):
                t = t.a[1][0]
            elif t.op == "un":
                t = t.a[1]
            elif t.op == "bin" and t.a[0] in "+-*/":
                xs = self.operands(t)
                if len(xs) != 1:
                    return t, flip
                t = xs[0]
            else:
                return t, flip
        return t, flip

    def operands(self, t):
        """the operands of an elementwise operation that carry its shape"""
        strong, weak, last = [], [], []
        for x in t.a[1:3]:
            i = M.ident(x)
            if is_const(i) or self.kind(i) == "num" or i.op in ("lv", "sizeof"):
                continue
            if i.op in ("call", "alloc") and i.a[0] in ("builtins.len", "builtins.float", "builtins.int", "builtins.min", "builtins.max"):
                continue
            if i.op == "sub" and i.a[0].op == "attr" and i.a[0].a[1] == "shape":
                continue
            if self.kind(i) in ("arr", "sparse") or i.op in ("call", "alloc", "meth", "bin", "sub", "inpl", "upd") or i.op == "attr" and i.a[1].endswith(("factors", "T", "data", "indices", "indptr")):
                strong.append(i)
            elif i.op == "attr":
                last.append(i)
            else:
                weak.append(i)
        return strong or weak or last

    def nnz(self, m):
        for _ in range(40):
            r, _f = self.root(m)
            if r is m:
                break
            m = r
        if m.op in ("alloc", "call") and m.a[0].startswith("scipy.sparse.") and m.a[1] and m.a[1][0].op == "tuple":
            parts = m.a[1][0].a[0]
            return self.dim(parts[0], 0)[0]
        return {(mk("nnz", m),): 1}

    # -- dimensions

    def dim(self, t, k):
        """polynomials the k-th dimension is known to equal (at least one)"""
        key = (t, k)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = [{(mk("dim", t, k),): 1}]
            r = self.memo[key] = self.dim_(t, k)
        return r

    def atom(self, a):
        e = self.equal.get(a)
        return [{(a,): 1}] if e is None else [{(a,): 1}, e]

    def dim_(self, t, k):
        t, flip = self.root(t)
        if k < 0:
            rank = self.rank(t)
            if rank is None:
                return self.atom(mk("dim", t, k))
            k += rank
        if flip and k < 2:
            k = 1 - k
        if t.op == "attr" and t.a[1] in ("indptr", "indices", "data", "row", "col") and k == 0:
            if t.a[1] == "indptr":
                return [add(p, num(1)) for p in self.dim(t.a[0], 0)]
            if t.a[1] != "data" or self.kind(M.ident(t.a[0])) != "arr":
                return [self.nnz(t.a[0])]
        if t.op == "bin":
            xs = self.operands(t)
            out = []
            for x in xs:
                out += self.dim(x, k)
            if out:
                return out
        if t.op in ("call", "alloc"):
            n, args, kws = t.a[0], t.a[1], dict(t.a[2]) if isinstance(t.a[2], tuple) else {}
            short = n.rsplit(".", 1)[-1]
            if n in ALLOC or short in RANDOM:
                s = kws.get("shape") or kws.get("size") or (args[0] if args and (n in ALLOC or short not in ("integers", "randint", "uniform", "normal")) else None)
                r = self.shape(s, k)
                if r is not None:
                    return [r]
            if n in ("numpy.eye", "numpy.identity") and args:
                return [self.poly(args[0] if k == 0 or len(args) < 2 else args[1])]
            if n == "numpy.dot" and len(args) == 2:
                return self.dot(args[0], args[1], k)
            if n == "numpy.arange" and k == 0 and args:
                nums = [a for a in args if not is_const(a) or isinstance(cval(a), int)]
                if len(nums) == 1:
                    return [self.poly(nums[0])]
                if len(nums) == 2:
                    return [add(self.poly(nums[1]), self.poly(nums[0]), -1)]
            if n == "numpy.ediff1d" and k == 0:
                return [add(p, num(1), -1) for p in self.dim(args[0], 0)]
            if n == "numpy.repeat" and k == 0 and len(args) > 1:
                c = self.root(args[1])[0]
                if c.op in ("call", "alloc") and c.a[0] in ("numpy.ediff1d", "numpy.diff") and c.a[1]:
                    b = self.root(c.a[1][0])[0]
                    if b.op == "attr" and b.a[1] == "indptr":
                        return [self.nnz(b.a[0])]
            if n in ("numpy.concatenate", "numpy.vstack") and args and args[0].op in ("list", "tuple") and isinstance(args[0].a[0], tuple):
                parts = args[0].a[0]
                if k == 0:
                    tot = {}
                    for x in parts:
                        tot = add(tot, self.dim(x, 0)[0])
                    return [tot]
                return [p for x in parts for p in self.dim(x, k)]
        if t.op == "meth" and t.a[1] in RANDOM:
            args, kws = t.a[2], dict(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], tuple) else {}
            s = kws.get("size") or (args[0] if args and t.a[1] not in ("integers", "randint", "uniform", "normal") else None)
            r = self.shape(s, k)
            if r is not None:
                return [r]
        if t.op == "meth" and t.a[1] == "dot" and t.a[2]:
            return self.dot(t.a[0], t.a[2][0], k)
        if t.op == "meth" and t.a[1] == "reshape":
            s = t.a[2][0] if len(t.a[2]) == 1 else mk("tuple", t.a[2])
            r = self.shape(s, k)
            if r is not None:
                return [r]
        if t.op == "sub" and is_const(t.a[1]) and M.ident(t.a[0]).op == "meth" and M.ident(t.a[0]).a[1] in PAIRS:
            # one of the two arrays a model answers with: one row for every query
            q = M.ident(t.a[0])
            if k == 0 and q.a[2]:
                return self.dim(q.a[2][0], 0)
            return self.atom(mk("dim", t, k))
        if t.op == "sub":
            i = t.a[1]
            parts = i.a[0] if i.op == "tuple" else (i,)
            if not any(is_const(x) and cval(x) is None for x in parts):
                axis, seen = 0, 0
                for x in parts:
                    if x.op == "slice":
                        if seen == k:
                            if x.a[0] is NONE and x.a[1] is NONE:
                                return self.dim(t.a[0], axis)
                            return self.atom(mk("dim", t, k))
                        seen += 1
                    elif not self.scalar(x):
                        if seen == k:
                            if self.kind(M.ident(x)) == "arr" and not self.mask(x):
                                return self.dim(x, 0)
                            return self.atom(mk("dim", t, k))
                        seen += 1
                    axis += 1
                if self.kind(M.ident(t.a[0])) == "sparse" or self.sparse_like(t.a[0]):
                    if len(parts) == 1 and self.scalar(parts[0]):
                        return [num(1)] if k == 0 else self.dim(t.a[0], 1)
                return self.dim(t.a[0], k - seen + axis)
        return self.atom(mk("dim", t, k))

    def sparse_like(self, t):
        r, _ = self.root(t)
        return r.op == "param" and r.a[0] in ("user_items", "item_users", "train_user_items", "test_user_items")

    def rank(self, t):
        t, _ = self.root(t)
        if t.op in ("call", "alloc") and t.a[0] in ALLOC and t.a[1]:
            return len(t.a[1][0].a[0]) if t.a[1][0].op == "tuple" else 1
        return None

    def mask(self, x):
        x = M.ident(x)
        return x.op == "cmp" or x.op == "un" and x.a[0] in ("~", "not") or x.op == "call" and str(x.a[0]).rsplit(".", 1)[-1] in ("isin", "in1d", "isnan")

    def scalar(self, x):
        x = M.ident(x)
        if x.op in ("lv",) or is_const(x) and isinstance(cval(x), int) or self.kind(x) == "num":
            return True
        if x.op == "sub":
            b = M.ident(x.a[0])
            return b.op == "attr" and b.a[1] in ("indices", "indptr", "row", "col") and self.scalar(x.a[1])
        if x.op == "bin":
            return all(self.scalar(y) for y in x.a[1:3])
        if x.op == "cast":
            return self.scalar(x.a[-1])
        return x.op in ("callv",) or x in self.values

    def dot(self, a, b, k):
        if k == 0:
            return self.dim(a, 0)
        return self.dim(b, 1)

    def shape(self, s, k):
        if s is None:
            return None
        if s.op == "tuple":
            return self.poly(s.a[0][k]) if k < len(s.a[0]) else None
        if s.op == "attr" and s.a[1] == "shape":
            return self.dim(s.a[0], k)[0]
        return self.poly(s) if k == 0 else None

    # -- polynomials of terms

    def poly(self, t):
        if t.op == "cast":
            return self.poly(t.a[-1])
        if is_const(t):
            v = cval(t)
            if isinstance(v, bool) or v is None:
                return {(t,): 1}
            if isinstance(v, (int, float)):
                return num(v)
            return {(t,): 1}
        if t.op == "bin" and t.a[0] in ("+", "-", "*"):
            a, b = self.poly(t.a[1]), self.poly(t.a[2])
            return mul(a, b) if t.a[0] == "*" else add(a, b, 1 if t.a[0] == "+" else -1)
        if t.op == "un" and t.a[0] == "-":
            return add({}, self.poly(t.a[1]), -1)
        if t.op == "sizeof":
            n = t.a[0] if isinstance(t.a[0], str) else str(t.a[0])
            return num(SIZEOF[n]) if n in SIZEOF else {(mk("sizeof", n),): 1}
        if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]):
            return self.dim(t.a[0].a[0], cval(t.a[1]))[0]
        if t.op in ("call", "alloc"):
            if t.a[0] == "builtins.len" and len(t.a[1]) == 1:
                x = t.a[1][0]
                if x.op == "attr" and x.a[1] == "shape":
                    return {(t,): 1}
                return self.dim(x, 0)[0]
            if t.a[0] in ("builtins.int", "builtins.float") and len(t.a[1]) == 1:
                return self.poly(t.a[1][0])
            if t.a[0] in ("numpy.max", "numpy.amax", "builtins.max") and len(t.a[1]) == 1:
                return {(mk("maxof", self.root(t.a[1][0])[0]),): 1}
        if t.op == "meth" and t.a[1] == "max" and not t.a[2]:
            return {(mk("maxof", self.root(t.a[0])[0]),): 1}
        if t.op == "meth" and t.a[1] == "size":
            return self.size(t.a[0])
        if t.op == "attr" and t.a[1] == "nnz":
            return self.nnz(t.a[0])
        if t.op == "attr" and t.a[1] == "size":
            b = self.root(t.a[0])[0]
            if b.op == "attr" and b.a[1] in ("indptr", "indices", "data"):
                return self.dim(b, 0)[0]
        if t in self.alias:
            return self.poly(self.alias[t])
        return {(self.canon(t),): 1}

    def canon(self, t):
        """an atom: values read by a loop variable are the same whatever loop over that range reads them"""
        if t.op == "lv":
            return t
        reads = t.op == "sub"

        def f(x):
            if x in self.alias:
                return self.alias[x]
            if x.op == "lv" and reads:
                return mk("lv", "*", 0, *x.a[2:])
            if x.op in ("inpl", "upd"):
                return x.a[0]
            if x.op == "cast":
                return x.a[-1]
            return x
        return rewrite(t, f)

    def size(self, v):
        """elements of a native vector"""
        v = M.ident(v)
        for s in self.vectors.get(v, ()):
            return s
        return {(mk("vecsize", v),): 1}

    # -- bounds of atoms

    def upper(self, a):
        """inclusive upper bounds of an atom, as polynomials"""
        if a.op == "lv":
            step = cval(a.a[4]) if is_const(a.a[4]) else None
            if isinstance(step, int) and step > 0:
                return [add(self.poly(a.a[3]), num(1), -1)]
            if isinstance(step, int) and step < 0:
                return [self.poly(a.a[2])]
            return []
        if a.op == "sub":
            out = self.content(a.a[0])
            return out
        if a.op in self.values or a in self.values:
            return [self.values[a]]
        if a.op in ("call", "alloc"):
            n = a.a[0].rsplit(".", 1)[-1]
            if n in ("min", "fmin", "minimum") and len(a.a[1]) > 1:
                return [self.poly(x) for x in a.a[1]]
            if n in ("get_thread_num", "threadid", "omp_get_thread_num") and self.threads is not None:
                return [add(self.threads, num(1), -1)]
        if a.op == "bin" and a.a[0] == "//":
            return [self.poly(a.a[1])]
        if a.op == "bin" and a.a[0] == "%":
            return [add(self.poly(a.a[2]), num(1), -1)]
        if a.op == "bin" and a.a[0] == "&":
            return [self.poly(a.a[1]), self.poly(a.a[2])]
        if a.op == "dim" and a.a[0].op == "sub":
            i = a.a[0].a[1]
            parts = i.a[0] if i.op == "tuple" else (i,)
            if a.a[1] < len(parts) and parts[a.a[1]].op == "slice":
                x = parts[a.a[1]]
                lo = num(0) if x.a[0] is NONE else self.poly(x.a[0])
                hi = self.dim(a.a[0].a[0], a.a[1])[0] if x.a[1] is NONE else self.poly(x.a[1])
                return [add(hi, lo, -1)]
        if a.op == "maxof":
            return self.content(a.a[0])
        if a.op == "vecsize":
            return [p for p in self.limits(a.a[0])]
        if a.op == "sizeof":
            return [num(8)]
        return []

    def limits(self, v):
        return ()

    def content(self, t):
        """inclusive upper bounds of the values stored in an array"""
        r, _ = self.root(t)
        if r.op == "attr":
            if r.a[1] == "indices" or r.a[1] == "col":
                return [add(p, num(1), -1) for p in self.dim(r.a[0], 1)]
            if r.a[1] == "row":
                return [add(p, num(1), -1) for p in self.dim(r.a[0], 0)]
            if r.a[1] == "indptr":
                return [self.nnz(r.a[0])]
        if r.op in ("call", "alloc"):
            if r.a[0] == "numpy.arange" and r.a[1]:
                nums = [a for a in r.a[1] if not is_const(a) or isinstance(cval(a), int)]
                return [add(self.poly(nums[-1] if len(nums) < 3 else nums[1]), num(1), -1)]
            if r.a[0] in ("numpy.repeat", "numpy.unique", "numpy.sort") and r.a[1]:
                return self.content(r.a[1][0])
        if r.op == "sub":
            return self.content(r.a[0])
        return [{(mk("maxof", r),): 1}] if r.op in ("param", "attr") else []

    def lower(self, a):
        if a.op == "lv":
            step = cval(a.a[4]) if is_const(a.a[4]) else None
            if isinstance(step, int) and step > 0:
                return [self.poly(a.a[2])]
            return []
        if a.op in ("call", "alloc") and a.a[0].rsplit(".", 1)[-1] == "max" and len(a.a[1]) > 1:
            return [self.poly(x) for x in a.a[1]]
        return []

    # -- facts

    def facts(self, facts):
        out = []
        for k, v in facts.items():
            if k.op == "cmp" and k.a[0] in ("==", "!=") and (k.a[0] == "==") == v:
                pairs = self.elements(k.a[1], k.a[2])
                if pairs is not None:
                    for x, y in pairs:
                        d = add(y, x, -1)
                        out.append((d, k))
                        out.append((add({}, d, -1), k))
                    continue
            if k.op == "cmp" and k.a[0] in ("<", "<=", "==", "!="):
                if k.a[1].op in ("const",) and not isinstance(cval(k.a[1]), (int, float)) or k.a[2].op == "const" and not isinstance(cval(k.a[2]), (int, float)):
                    continue
                d = add(self.poly(k.a[2]), self.poly(k.a[1]), -1)       # y - x
                if k.a[0] == "<":
                    out.append((add(d, num(1), -1) if v else add({}, d, -1), k))
                elif k.a[0] == "<=":
                    out.append((d if v else add(add({}, d, -1), num(1), -1), k))
                elif (k.a[0] == "==") == v:
                    out.append((d, k))
                    out.append((add({}, d, -1), k))
                elif k.a[0] == "==" and not v:
                    # a size that is not zero is at least one
                    for s in (1, -1):
                        e = {m: s * c for m, c in d.items()}
                        if all(c > 0 for c in e.values()) and len(e) == 1 and () not in e:
                            out.append((add(e, num(1), -1), k))
            elif k.op == "truth":
                d = self.poly(k.a[0])
                if len(d) == 1 and () not in d and v:
                    out.append((add(d, num(1), -1), k))
                elif not v:
                    out.append((d, k))
                    out.append((add({}, d, -1), k))
        for a, p in self.equal.items():
            out.append((add({(a,): 1}, p, -1), None))
            out.append((add(p, {(a,): 1}, -1), None))
        return [(p, k) for p, k in out if p]

    def elements(self, a, b):
        """the numbers two shapes or tuples are compared by"""
        a, b = M.ident(a), M.ident(b)
        seq = [x for x in (a, b) if x.op == "tuple" and isinstance(x.a[0], tuple)]
        n = len(seq[0].a[0]) if seq else 2
        shapes = [x for x in (a, b) if x.op == "attr" and x.a[1] == "shape"]
        if len(seq) + len(shapes) != 2 or any(len(x.a[0]) != n for x in seq):
            return None
        def at(x, k):
            return self.poly(x.a[0][k]) if x.op == "tuple" else self.dim(x.a[0], k)[0]
        return [(at(a, k), at(b, k)) for k in range(n)]

    # -- deciding

    def relevant(self, goal, facts):
        """facts that share a size with the goal, directly or through another fact"""
        atoms = set()
        work = [a for m in goal for a in m]
        while work:
            a = work.pop()
            if a in atoms:
                continue
            atoms.add(a)
            for u in self.upper(a) + self.lower(a):
                work += [b for m in u for b in m]
        out = []
        for _ in range(3):
            more = [f for f in facts if f not in out and any(a in atoms for m in f[0] for a in m)]
            if not more:
                break
            out += more
            for f in more:
                atoms.update(a for m in f[0] for a in m)
        return out

    def nonneg(self, goal, facts, limit=400):
        """(proved, facts used, what is left of the goal when it could not be proved)"""
        facts = self.relevant(goal, facts)
        seen = set()
        work = [(goal, frozenset(), 0)]
        stuck = []
        n = 0
        while work:
            g, used, depth = work.pop(0)
            key = frozenset(g.items())
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > limit:
                return None, used, goal
            neg = [m for m, c in g.items() if c < 0]
            if not neg:
                return True, used, g
            moved = False
            # bounds of what counts against the goal, and lower bounds of what counts for it
            for m in neg:
                for i, a in enumerate(m):
                    for u in self.upper(a):
                        rest = m[:i] + m[i + 1:]
                        h = add(g, {m: -g[m]})
                        h = add(h, mul({rest: g[m]}, u))
                        work.append((h, used, depth))
                        moved = True
            for m, c in g.items():
                if c > 0:
                    for i, a in enumerate(m):
                        for u in self.lower(a):
                            if u:
                                rest = m[:i] + m[i + 1:]
                                h = add(add(g, {m: -c}), mul({rest: c}, u))
                                work.append((h, used, depth))
            if depth < 4:
                for f, k in facts:
                    for m in neg:
                        for fm, fc in f.items():
                            if fc >= 0 or (fm == () and m != ()):
                                continue
                            if m == () and any(c > 0 and g.get(x, 0) <= 0 for x, c in f.items()):
                                continue
                            q = divide(m, fm)
                            if q is None:
                                continue
                            h = add(g, mul({q: 1}, f), -(g[m] / fc))
                            h = {a: int(b) if b == int(b) else b for a, b in h.items() if abs(b) > 1e-9}
                            work.append((h, used | ({k} if k is not None else set()), depth + 1))
            if not moved and depth == 0:
                stuck.append(g)
        return False, frozenset(), stuck


def divide(m, d):
    m = list(m)
    for a in d:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


__all__ = ["Sizes", "add", "mul", "num", "show", "walk", "T", "const"]
