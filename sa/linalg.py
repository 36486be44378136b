"""Linear-algebra values: scalar, vector and matrix expressions reduced to sums of monomials.

A value is a dict {(scalars, basis): coefficient}: 'scalars' is a sorted tuple of scalar atoms, 'basis' is None for a
number, a vector atom ("v", ...), or a matrix atom ("M", ...).  Two expressions that mean the same sum of products have
the same normal form, however the source writes it.  Vectors made of several monomials that are used inside a product
are named by their own normal form, so products stay small; expand() undoes that where two forms have to be compared.
"""
from fractions import Fraction

from . import model as M
from .terms import NONE, const, cval, is_const, mk


class Unknown(Exception):
    pass


LIMIT = 3000
STOP = set()
WORK = [0]
BUDGET = 300000
ONE = {((), None): Fraction(1)}
ZERO = {}
IDENTITY = ("M", "I")


def num(x):
    x = Fraction(x)
    return {((), None): x} if x else {}


def atom(a):
    return {((a,), None): Fraction(1)}


def basis(b):
    return {((), b): Fraction(1)}


def add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        c = out.get(m, 0) + k * c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def into(out, b):
    WORK[0] += len(b)
    for m, c in b.items():
        c = out.get(m, 0) + c
        if c:
            out[m] = c
        else:
            out.pop(m, None)


def neg(a):
    return {m: -c for m, c in a.items()}


def is_scalar(a):
    return all(m[1] is None for m in a)


def kind(a):
    ks = {None if m[1] is None else m[1][0] for m in a}
    return ks.pop() if len(ks) == 1 else ("0" if not ks else "?")


class Form:
    """an interned normal form"""
    __slots__ = ("d", "n", "x")

    def __repr__(self):
        return "Form%d" % self.n


_forms = {}
_order = {}


def key(a):
    k = frozenset(a.items())
    f = _forms.get(k)
    if f is None:
        f = _forms[k] = Form()
        f.d, f.n, f.x = dict(a), len(_forms), None
    return f


def rank(x):
    return _order.setdefault(x, len(_order))


def mul(a, b):
    """product with at least one number"""
    out = {}
    WORK[0] += len(a) * len(b)
    for (s1, b1), c1 in a.items():
        for (s2, b2), c2 in b.items():
            if b1 is not None and b2 is not None:
                raise Unknown("product of two arrays")
            m = (tuple(sorted(s1 + s2, key=rank)), b1 or b2)
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    return out


def div(a, b):
    if not b:
        raise Unknown("division by zero")
    if len(b) == 1:
        (s, bb), c = next(iter(b.items()))
        if bb is None and not s:
            return {m: v / c for m, v in a.items()}
    if not is_scalar(b):
        raise Unknown("division by an array")
    return mul(a, atom(("inv", key(b))))


def named(v):
    """a vector as coefficient * atom"""
    if len(v) == 1:
        (s, b), c = next(iter(v.items()))
        return {(s, None): c}, b
    return ONE, ("v", "sum", key(v))


def dot(a, b):
    """inner product of two vectors / product of a matrix and a vector"""
    ka, kb = kind(a), kind(b)
    if "0" in (ka, kb):
        return {}
    if ka == "M" and kb == "v":
        return matvec(a, b)
    if ka == "v" and kb == "M":
        return matvec(b, a)
    if ka == "v" and kb == "v":
        ca, x = named(a)
        cb, y = named(b)
        return mul(mul(ca, cb), atom(("dot",) + tuple(sorted((x, y), key=rank))))
    raise Unknown("product of %s and %s" % (ka, kb))


def matvec(m, v):
    cv, x = named(v)
    out = {}
    for (s, b), c in m.items():
        if b == IDENTITY:
            t = {(s, x): c}
        elif b[1] == "outer":
            t = mul({(s, None): c}, mul(atom(("dot",) + tuple(sorted((b[3], x), key=rank))), basis(b[2])))
        elif b[1] == "sum":
            raise Unknown("named matrix")
        else:
            t = {(s, ("v", "Mv", b, x)): c}
        out = add(out, t)
    return mul(cv, out)


def outer(a, b):
    ca, x = named(a)
    cb, y = named(b)
    return mul(mul(ca, cb), basis(("M", "outer", x, y)))


def expand(a, depth=0):
    """replace named vectors by what they stand for"""
    if depth > 12 or WORK[0] > BUDGET:
        raise Unknown("too large")
    out = {}
    for (s, b), c in a.items():
        t = {((), None): c}
        for x in s:
            t = mul(t, expand_atom(x, depth))
            if len(t) > LIMIT or WORK[0] > BUDGET:
                raise Unknown("too large")
        if b is not None:
            t = mul(t, expand_basis(b, depth))
        into(out, t)
        if len(out) > LIMIT:
            raise Unknown("too large")
    return out


def expanded(f, depth):
    if f.x is None:
        f.x = expand(f.d, depth)
    return f.x


def expand_basis(b, depth):
    if b[:2] == ("v", "sum"):
        if b[2] in STOP:
            return basis(b)
        return expanded(b[2], depth + 1)
    if b[:2] == ("v", "Mv"):
        v = expand_basis(b[3], depth)
        out = {}
        for (s, x), c in v.items():
            into(out, {(s, ("v", "Mv", b[2], x)): c})
        return out
    if b[:2] == ("M", "outer"):
        out = {}
        for (s1, x), c1 in expand_basis(b[2], depth).items():
            for (s2, y), c2 in expand_basis(b[3], depth).items():
                if WORK[0] > BUDGET:
                    raise Unknown("too large")
                x2, y2 = sorted((x, y), key=rank)
                into(out, {(tuple(sorted(s1 + s2, key=rank)), ("M", "outer", x2, y2)): c1 * c2})
        return out
    if b[:2] == ("v", "solve"):
        return basis(("v", "solve", key(expanded(b[2], depth + 1)), key(expanded(b[3], depth + 1))))
    return basis(b)


def expand_atom(x, depth):
    if isinstance(x, tuple) and x and x[0] == "dot":
        out = {}
        for (s1, p), c1 in expand_basis(x[1], depth).items():
            if WORK[0] > BUDGET:
                raise Unknown("too large")
            for (s2, q), c2 in expand_basis(x[2], depth).items():
                into(out, {(tuple(sorted(s1 + s2 + (pair(p, q),), key=rank)), None): c1 * c2})
        return out
    if isinstance(x, tuple) and x and x[0] == "inv":
        return atom(("inv", key(expanded(x[1], depth + 1))))
    return atom(x)


def pair(p, q):
    """x.(G y) and y.(G x) are the same number (G is symmetric)"""
    if p[:2] == ("v", "Mv") and q[:2] != ("v", "Mv"):
        a, b = sorted((p[3], q), key=rank)
        return ("form", p[2], a, b)
    if q[:2] == ("v", "Mv") and p[:2] != ("v", "Mv"):
        a, b = sorted((q[3], p), key=rank)
        return ("form", q[2], a, b)
    return ("dot",) + tuple(sorted((p, q), key=rank))


def equal(a, b, keep=()):
    """keep: vectors that may stay named (they stand for the same thing on both sides)"""
    if a == b:
        return True
    WORK[0] = 0
    if keep:
        forget()
        STOP.update(keep)
        try:
            return expand(a) == expand(b)
        finally:
            STOP.clear()
            forget()
    return expand(a) == expand(b)


def forget():
    for f in _forms.values():
        f.x = None


def show(a):
    if not a:
        return "0"
    out = []
    for (s, b), c in a.items():
        f = [] if c == 1 and (s or b) else [str(c)]
        f += [show_atom(x) for x in s]
        if b is not None:
            f.append(show_basis(b))
        out.append("*".join(f))
    return " + ".join(out)


def show_atom(x):
    if not isinstance(x, tuple):
        return str(x)
    if x[0] == "dot":
        return "<%s,%s>" % (show_basis(x[1]), show_basis(x[2]))
    if x[0] == "inv":
        return "1/(%s)" % show(x[1].d)
    if x[0] == "c":
        return "c%s" % (x[-1] if x[-1] else "")
    if x[0] == "form":
        return "<%s,%s %s>" % (show_basis(x[2]), show_basis(x[1]), show_basis(x[3]))
    return str(x[1] if len(x) == 2 else x)[:40]


def show_basis(b):
    if b == IDENTITY:
        return "I"
    if b[1] == "row":
        i = b[3]
        return "%s[%s]" % (name(b[2]), "i%s" % (i[-1] or "") if isinstance(i, tuple) else "u" if getattr(i, "op", "") == "lv" else str(i)[:20])
    if b[1] == "gram":
        return "gram(%s)" % name(b[2])
    if b[1] == "sum":
        return "(%s)" % show(b[2].d)
    if b[1] == "Mv":
        return "%s %s" % (show_basis(b[2]), show_basis(b[3]))
    if b[1] == "outer":
        return "outer(%s,%s)" % (show_basis(b[2]), show_basis(b[3]))
    if b[1] == "solve":
        return "solve(%s; %s)" % (show(b[2].d), show(b[3].d))
    return str(b[1:])[:40]


def name(t):
    s = str(t)
    return s if len(s) < 20 else s[:17] + "..."


COPY_CALLS = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.copy", "builtins.float", "numpy.float32", "numpy.float64",
              "numpy.atleast_2d", "numpy.asfortranarray", "numpy.squeeze", "implicit.utils.check_csr", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix"}
COPY_METHS = {"astype", "copy", "tocsr", "tocoo", "sorted_indices", "asformat", "item", "asfptype"}
SOLVES = {"numpy.linalg.solve", "scipy.linalg.solve", "scipy.linalg.cho_solve"}


class Values:
    """normal forms of the terms of one path; mats: factor matrices, reg / alpha: parameters that are numbers"""

    def __init__(self, mats, numbers, signs=None, ones=(), caches=None):
        self.mats, self.numbers, self.ones = mats, numbers, set(ones)
        self.signs = signs if signs is not None else {}
        self.caches = caches or {}
        self.mem = {}
        self.results = {}
        self.memo = {}

    # -- terms
    def val(self, t):
        if t in self.results:
            return self.results[t]
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._val(t)
        return r

    def _val(self, t):
        op = t.op
        if op == "cast":
            return self.val(t.a[-1])
        if is_const(t):
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Unknown(str(t))
            return num(Fraction(v).limit_denominator(10 ** 25) if isinstance(v, float) and abs(v) > 1e-20 else Fraction(v))
        o = M.ident(t)
        if o in self.ones:
            return num(1)
        if t in self.numbers:
            return atom(self.numbers[t])
        if t in self.mats:
            return basis(("M", "factors", t))
        if t in self.caches:
            return basis(("M", "gram", self.caches[t]))
        if op == "attr" and t.a[1] == "T":
            return self.transpose(t.a[0])
        if op == "attr" and t.a[1] in ("nnz", "size") or op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            return atom(("len", t))
        if op in ("call", "alloc"):
            return self.call(t)
        if op == "meth":
            n = t.a[1]
            if n in COPY_METHS:
                return self.val(t.a[0])
            if n == "dot":
                return self.product(t.a[0], t.a[2][0])
            if n == "transpose":
                return self.transpose(t.a[0])
            if n == "sum" and t.a[0].op == "bin" and t.a[0].a[0] == "*":
                x, y = self.val(t.a[0].a[1]), self.val(t.a[0].a[2])
                if kind(x) == "v" and kind(y) == "v":
                    return dot(x, y)
            raise Unknown(str(t))
        if op == "un" and t.a[0] == "-":
            return neg(self.val(t.a[1]))
        if op == "un" and t.a[0] == "+":
            return self.val(t.a[1])
        if op == "bin":
            return self.binary(t.a[0], t.a[1], t.a[2])
        if op == "inpl":
            return self.inplace(t.a[0], t.a[1], t.a[2], t.a[3])
        if op == "sub":
            return self.item(t)
        if op == "elem":
            raise Unknown(str(t))
        raise Unknown(str(t))

    def transpose(self, x):
        v = self.val(x)
        if len(v) == 1 and next(iter(v))[1][:2] == ("M", "factors"):
            (s, b), c = next(iter(v.items()))
            return {(s, ("M", "factorsT", b[2])): c}
        if kind(v) == "v" or all(m[1] and (m[1] == IDENTITY or m[1][1] in ("gram", "outer")) for m in v):
            return v
        raise Unknown("transpose")

    def product(self, x, y):
        a, b = self.val(x), self.val(y)
        if len(a) == 1 and len(b) == 1:
            (s1, p), c1 = next(iter(a.items()))
            (s2, q), c2 = next(iter(b.items()))
            if p and q and p[:2] == ("M", "factorsT") and q[:2] == ("M", "factors"):
                if p[2] is not q[2]:
                    raise Unknown("product of different factors")
                return mul(mul({(s1, None): c1}, {(s2, None): c2}), basis(("M", "gram", p[2])))
            if p is None or q is None:
                return mul(a, b)
        return dot(a, b)

    def binary(self, op, x, y):
        if op == "@":
            return self.product(x, y)
        a, b = self.val(x), self.val(y)
        if op == "+":
            return self.plus(a, b)
        if op == "-":
            return self.plus(a, neg(b))
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b)
        if op == "**" and is_const(y) and cval(y) == 2 and is_scalar(a):
            return mul(a, a)
        raise Unknown("operator " + op)

    def plus(self, a, b):
        if a and b and kind(a) != kind(b):
            raise Unknown("sum of %s and %s" % (kind(a), kind(b)))
        return add(a, b)

    def inplace(self, obj, how, idx, val):
        op = augmented(how)
        if op and idx is NONE:
            a, b = self.val(obj), self.val(val)
            if op == "+":
                return self.plus(a, b)
            if op == "-":
                return self.plus(a, neg(b))
            if op == "*":
                return mul(a, b)
            if op == "/":
                return div(a, b)
        raise Unknown(str(how))

    def sign(self, v):
        """1 / -1 / 0 / None"""
        if not v:
            return 0
        out = set()
        for (s, b), c in v.items():
            if b is not None:
                return None
            k = 1 if c > 0 else -1
            for x in s:
                if isinstance(x, tuple) and x[0] == "c":
                    k *= self.signs[x[-1]]
                elif x == "alpha":
                    pass
                else:
                    return None
            out.add(k)
        return out.pop() if len(out) == 1 else None

    def call(self, t):
        n, args = t.a[0], t.a[1]
        if n in ("numpy.zeros", "numpy.zeros_like"):
            return {}
        if n in ("numpy.eye", "numpy.identity"):
            return basis(IDENTITY)
        if n in COPY_CALLS and args:
            return self.val(args[0])
        if n == "numpy.transpose" and len(args) == 1:
            return self.transpose(args[0])
        if n in ("numpy.dot", "numpy.inner", "numpy.vdot", "numpy.matmul"):
            return self.product(args[0], args[1])
        if n == "numpy.outer":
            return outer(self.val(args[0]), self.val(args[1]))
        if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide"):
            return self.binary({"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[n[6:]], args[0], args[1])
        if n == "numpy.negative":
            return neg(self.val(args[0]))
        if n.rsplit(".", 1)[-1] in ("abs", "fabs", "absolute", "fabsf"):
            v = self.val(args[0])
            s = self.sign(v)
            if s is not None:
                return v if s >= 0 else neg(v)
            if is_scalar(v):
                return atom(("abs", key(v)))
        if n == "builtins.len" and len(args) == 1:
            return atom(("len", args[0]))
        if n.rsplit(".", 1)[-1] in ("max", "fmax", "maximum", "min", "fmin", "minimum") and len(args) == 2:
            a, b = self.val(args[0]), self.val(args[1])
            s = self.sign(add(a, b, -1))
            if s is not None:
                return a if (s >= 0) == (n.rsplit(".", 1)[-1] in ("max", "fmax", "maximum")) else b
        if n in SOLVES and len(args) == 2:
            a, b = args
            return self.solve(self.val(a), self.val(b))
        if n == "scipy.linalg.cho_factor":
            return self.val(args[0])
        raise Unknown(n)

    def solve(self, a, b):
        if not b:
            return {}
        if kind(a) != "M" or kind(b) != "v":
            raise Unknown("solve")
        cb, x = named(b)
        return mul(cb, basis(("v", "solve", key(a), key(basis(x)))))

    # -- entries of the sparse matrix
    def entry(self, idx):
        """(matrix, row, k) for the position of an entry in data / indices"""
        x = idx
        while x.op == "cast":
            x = x.a[-1]
        if x.op != "lv":
            raise Unknown("position %s" % x)
        lo, hi, step = x.a[2], x.a[3], x.a[4]
        m, u = self.pointer(lo)
        m2, u2 = self.pointer(hi)
        if m is not m2:
            raise Unknown("range")
        d = self.offset(u2, u)
        if d != 1 or (step is not None and not (is_const(step) and cval(step) == 1)):
            raise Unknown("range")
        return m, u, x.a[1]

    def pointer(self, t):
        while t.op == "cast":
            t = t.a[-1]
        if t.op == "sub" and M.ident(t.a[0]).op == "attr" and M.ident(t.a[0]).a[1] == "indptr":
            return self.base(M.ident(t.a[0]).a[0]), t.a[1]
        raise Unknown("range of %s" % t)

    def offset(self, a, b):
        from . import native as NV
        d = NV.minus(NV.lin(a), NV.lin(b))
        return d.get(1, 0) if not {k for k in d if k != 1 and d[k]} else None

    def base(self, m):
        """the matrix an expression has the structure of"""
        for _ in range(20):
            m = M.ident(m)
            if m.op == "meth" and m.a[1] in COPY_METHS:
                m = m.a[0]
            elif m.op in ("call", "alloc") and m.a[0] in COPY_CALLS and m.a[1]:
                m = m.a[1][0]
            elif m.op == "bin" and m.a[0] == "*":
                m = m.a[2] if self.is_number(m.a[1]) else m.a[1]
            elif m.op == "meth" and m.a[1] == "multiply":
                m = m.a[0]
            else:
                break
        return m

    def is_number(self, t):
        try:
            return is_scalar(self.val(t))
        except Unknown:
            return False

    def content(self, m, e):
        """value of entry e of a sparse matrix expression (or of its data array)"""
        t = m
        if t.op == "inpl" and augmented(t.a[1]):
            return self.scaled(self.content(t.a[0], e), augmented(t.a[1]), t.a[3])
        if t.op == "inpl" and t.a[1] == ".astype":
            return self.content(t.a[0], e)
        if t.op == "meth" and t.a[1] in COPY_METHS:
            return self.content(t.a[0], e)
        if t.op == "meth" and t.a[1] == "multiply":
            return self.scaled(self.content(t.a[0], e), "*", t.a[2][0])
        if t.op in ("call", "alloc") and t.a[0] in COPY_CALLS and t.a[1]:
            return self.content(t.a[1][0], e)
        if t.op in ("call", "alloc") and t.a[0].rsplit(".", 1)[-1] in ("abs", "fabs", "absolute"):
            v = self.content(t.a[1][0], e)
            s = self.sign(v)
            return v if s >= 0 else neg(v)
        if t.op == "attr" and t.a[1] == "data":
            return self.content(t.a[0], e)
        if t.op == "bin" and t.a[0] in ("*", "/", "+", "-"):
            if t.a[0] in ("*", "+") and self.is_number(t.a[1]):
                return self.scaled(self.content(t.a[2], e), t.a[0], t.a[1])
            if self.is_number(t.a[2]):
                return self.scaled(self.content(t.a[1], e), t.a[0], t.a[2])
        if t.op in ("param", "attr", "self"):
            return atom(("c", t) + e)
        raise Unknown("entries of %s" % t)

    def scaled(self, v, op, by):
        k = self.val(by)
        if op == "*":
            return mul(v, k)
        if op == "/":
            return div(v, k)
        return add(v, k, 1 if op == "+" else -1)

    def item(self, t):
        b, i = t.a
        o = M.ident(b)
        if o.op == "elem" or o.op == "cast":
            o = o.a[-1] if o.op == "cast" else o
        r = self.of_nonzeros(t)
        if r is not None:
            m, u, k, comp = r
            if comp == 1:
                return self.content(m, (self.row(u), k))
            raise Unknown("an index used as a number")
        if o in self.mats or (b.op == "upd" and o in self.mats):
            if i.op == "tuple":
                r, j = i.a[0]
                v = self.mem.get(("row", o, self.row(r)))
                if v is not None:
                    raise Unknown("component of an updated row")
                return atom(("comp", ("v", "row", o, self.row(r)), j))
            if i.op == "slice":
                raise Unknown("slice")
            return self.current(b, i)
        arr = b
        while arr.op == "cast":
            arr = arr.a[-1]
        if self.is_data(arr):
            m, u, k = self.entry(i)
            if self.base(self.owner(arr)) is not m:
                raise Unknown("data of another matrix")
            return self.content(arr, (self.row(u), k))
        raise Unknown(str(t))

    def is_data(self, arr):
        return self.owner(arr) is not None

    def owner(self, arr):
        """the matrix whose data array this is"""
        for _ in range(20):
            if arr.op == "inpl":
                arr = arr.a[0]
            elif arr.op == "meth" and arr.a[1] in COPY_METHS:
                arr = arr.a[0]
            elif arr.op in ("call", "alloc") and arr.a[0] in COPY_CALLS | {"numpy.abs", "numpy.absolute"} and arr.a[1]:
                arr = arr.a[1][0]
            elif arr.op == "bin" and arr.a[0] in ("*", "/", "+", "-"):
                arr = arr.a[2] if self.is_number(arr.a[1]) else arr.a[1]
            elif arr.op == "attr" and arr.a[1] == "data":
                return arr.a[0]
            else:
                return None
        return None

    def of_nonzeros(self, t):
        """(matrix, row, k, component) for the pairs of nonzeros(matrix, row)"""
        if t.op == "sub" and t.a[0].op == "elem" and is_const(t.a[1]):
            src = t.a[0].a[0]
            if src.op == "call" and src.a[0].rsplit(".", 1)[-1] == "nonzeros":
                d = dict(src.a[2])
                m, u = (src.a[1] + (d.get("m"), d.get("row")))[:2] if src.a[1] else (d.get("m"), d.get("row"))
                return m, u, t.a[0].a[2], cval(t.a[1])
        return None

    def row(self, i):
        """identity of a row: an entry's column, a loop variable, a parameter"""
        while i.op == "cast":
            i = i.a[-1]
        r = self.of_nonzeros(i)
        if r is not None and r[3] == 0:
            return ("idx", self.base(r[0]), self.row(r[1]), r[2])
        if i.op == "sub" and M.ident(i.a[0]).op == "attr" and M.ident(i.a[0]).a[1] == "indices":
            m, u, k = self.entry(i.a[1])
            if self.base(M.ident(i.a[0]).a[0]) is not m:
                raise Unknown("indices of another matrix")
            return ("idx", m, self.row(u), k)
        return i

    def current(self, b, i):
        """row i of a version of a factor matrix"""
        while b.op == "upd":
            if self.row(b.a[1]) == self.row(i):
                return self.val(b.a[2])
            raise Unknown("another row")
        if b.op == "inpl":
            raise Unknown("updated factors")
        return basis(("v", "row", b, self.row(i)))

    # -- memory behind pointers
    def region(self, t):
        while t.op == "cast":
            t = t.a[-1]
        if t.op == "addr":
            x = t.a[0]
            if t.a[1] is not None:
                return ("num", x)
            if x.op == "sub":
                b, i = M.ident(x.a[0]), x.a[1]
                if b in self.mats and i.op == "tuple" and len(i.a[0]) == 2:
                    return ("row", b, self.row(i.a[0][0]))
                return ("term", x.a[0])
            return ("num", x)
        if t.op == "alloc":
            return ("mem", t)
        if t.op == "bin" and t.a[0] == "+":
            for p, off in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if p.op == "alloc":
                    if off.op == "bin" and off.a[0] == "*":
                        lvs = [x for x in (off.a[1], off.a[2]) if strip(x).op == "lv"]
                        if len(lvs) == 1:
                            return ("memrow", p, strip(lvs[0]))
                    raise Unknown("offset")
        if t.op in ("param", "attr", "inpl", "upd"):
            return ("term", t)
        raise Unknown("pointer %s" % t)

    def read(self, t):
        r = self.region(t)
        if r in self.mem:
            return self.mem[r]
        if r[0] == "row":
            return basis(("v",) + r)
        if r[0] == "term":
            return self.val(r[1])
        if r[0] == "num":
            return self.val(r[1])
        raise Unknown("uninitialised memory")

    def write(self, t, v):
        self.put(self.region(t), v)

    def put(self, r, v):
        if r[0] == "memrow":
            lv = r[2]
            base = self.mem.get(("mem", r[1]))
            if base is None:
                raise Unknown("row of uninitialised memory")
            # v = row lv of base + change: the change has to be coefficient * comp(y, lv) * z
            self.mem[("mem", r[1])] = add(base, self.by_rows(v, lv))
            return
        self.mem[r] = v

    def by_rows(self, v, lv):
        out = {}
        for (s, b), c in v.items():
            comps = [x for x in s if isinstance(x, tuple) and x[0] == "comp" and strip(x[2]) is lv]
            if len(comps) != 1 or b is None:
                raise Unknown("row update")
            rest = list(s)
            rest.remove(comps[0])
            out = add(out, mul({(tuple(rest), None): c}, outer(basis(comps[0][1]), basis(b))))
        return out

    # -- events
    def blas(self, name, args):
        """effect of a BLAS / LAPACK / libc call; returns a value for functions"""
        if name == "axpy":
            x = mul(self.read(args[1]), self.read(args[2]))
            r = self.region(args[4])
            if r[0] == "memrow":
                self.put(r, x)
            else:
                self.put(r, self.plus(self.read(args[4]), x))
        elif name == "dot":
            return dot(self.read(args[1]), self.read(args[3]))
        elif name == "scal":
            self.write(args[2], mul(self.read(args[1]), self.read(args[2])))
        elif name == "copy":
            self.write(args[3], self.read(args[1]))
        elif name == "symv":
            v = mul(self.read(args[2]), dot(self.read(args[3]), self.read(args[5])))
            beta = self.read(args[7])
            if beta:
                v = self.plus(v, mul(beta, self.read(args[8])))
            self.write(args[8], v)
        elif name == "gemv":
            v = mul(self.read(args[3]), dot(self.read(args[4]), self.read(args[6])))
            beta = self.read(args[8])
            if beta:
                v = self.plus(v, mul(beta, self.read(args[9])))
            self.write(args[9], v)
        elif name == "syr":
            x = self.read(args[3])
            self.write(args[5], self.plus(self.read(args[5]), mul(self.read(args[2]), outer(x, x))))
        elif name == "ger":
            self.write(args[7], self.plus(self.read(args[7]), mul(self.read(args[2]), outer(self.read(args[3]), self.read(args[5])))))
        elif name == "posv":
            self.write(args[5], self.solve(self.read(args[3]), self.read(args[5])))
            self.mem.pop(self.region(args[3]), None)
        elif name == "gesv":
            self.write(args[5], self.solve(self.read(args[2]), self.read(args[5])))
            self.mem.pop(self.region(args[2]), None)
        elif name == "potrf":
            pass
        elif name == "potrs":
            self.write(args[5], self.solve(self.read(args[3]), self.read(args[5])))
        elif name == "memcpy" or name == "memmove":
            self.write(args[0], self.read(args[1]))
        elif name == "memset":
            if is_const(args[1]) and cval(args[1]) == 0:
                self.write(args[0], {})
            else:
                raise Unknown("memset")
        else:
            raise Unknown(name)
        return None

    def event(self, ev):
        if ev.kind == "call" and isinstance(ev.d[0], str):
            d = ev.d[0]
            bn = M.blas_name(d) or (d.rsplit(".", 1)[-1] if d.startswith("libc.string.") else None)
            if bn:
                if bn == "potrf" or bn == "posv" or bn == "gesv" or bn in ("axpy", "dot", "scal", "copy", "symv", "gemv", "syr", "ger", "potrs", "memcpy", "memmove", "memset"):
                    r = self.blas(bn, ev.d[1][0])
                    if r is not None:
                        self.results[ev.d[2]] = r
                else:
                    raise Unknown(bn)
        elif ev.kind == "mut":
            tgt, how, idx, val = ev.d[0], ev.d[1], ev.d[2], ev.d[3]
            if how == "setitem":
                o = M.ident(tgt)
                if o in self.mats and idx is not None and idx.op not in ("slice", "tuple"):
                    self.put(("row", o, self.row(idx)), self.val(val))
                elif o in self.mats:
                    raise Unknown("store %s" % idx)
            elif isinstance(how, str) and how.startswith("aug"):
                s = M.ident(tgt)
                if s.op == "sub" and M.ident(s.a[0]) in self.mats and s.a[1].op not in ("slice", "tuple"):
                    k = ("row", M.ident(s.a[0]), self.row(s.a[1]))
                    new = self.inplace(tgt, how, idx, val)
                    self.put(k, new)
                    self.results[mk("inpl", tgt, how[3:] + "=", idx, val)] = new
                elif s in self.mats:
                    raise Unknown("update of a whole factor matrix")


def strip(t):
    while t.op == "cast":
        t = t.a[-1]
    return t


def augmented(how):
    if isinstance(how, str):
        if how.startswith("aug"):
            return how[3:]
        if len(how) in (2, 3) and how.endswith("="):
            return how[:-1]
    return None
