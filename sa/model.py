"""What the analysis knows about the libraries the repository uses: purity, in-place effects, sharing of memory."""
import ast
from .terms import NONE, T, is_const, cval, mk

ALIASES = {"numpy.isin": "numpy.in1d", "numpy.absolute": "numpy.abs", "numpy.asanyarray": "numpy.asarray",
           "scipy.sparse.csr.csr_matrix": "scipy.sparse.csr_matrix", "numpy.ndarray.copy": "numpy.copy",
           "scipy.sparse.csr_array": "scipy.sparse.csr_matrix"}

# calls without any effect worth recording
NEUTRAL_PREFIX = ("logging.", "warnings.", "time.", "threadpoolctl.", "tqdm.")
NEUTRAL_RECV = ("log", "logger", "progress")
PURE_PREFIX = ("numpy.", "scipy.", "math.", "builtins.", "os.path.", "itertools.", "operator.")
IMPURE = {"numpy.random", "numpy.savez", "numpy.savez_compressed", "numpy.save", "numpy.load", "numpy.copyto", "numpy.put",
          "numpy.add.at", "numpy.random.shuffle", "numpy.random.seed", "numpy.place", "numpy.putmask", "numpy.fill_diagonal",
          "scipy.sparse.save_npz", "numpy.subtract.at", "numpy.multiply.at"}
# library functions writing into an argument (by position)
LIB_MUT = {"numpy.copyto": [0], "numpy.put": [0], "numpy.add.at": [0], "numpy.subtract.at": [0], "numpy.multiply.at": [0],
           "numpy.place": [0], "numpy.putmask": [0], "numpy.fill_diagonal": [0], "numpy.random.shuffle": [0], "random.shuffle": [0],
           "heapq.heappush": [0], "heapq.heappop": [0], "heapq.heappushpop": [0], "heapq.heapify": [0], "heapq.heapreplace": [0],
           "libc.string.memcpy": [0], "libc.string.memset": [0], "libc.string.memmove": [0], "bisect.insort": [0],
           "implicit.gpu.bpr_update": [3, 4],
           "libcpp.algorithm.sort_heap": [0], "std.sort_heap": [0], "std.push_heap": [0], "std.pop_heap": [0]}
BLAS_OUT = {"axpy": [4], "symv": [8], "scal": [2], "posv": [3, 5, 7], "gesv": [2, 4, 5, 7], "copy": [3], "gemv": [9], "potrf": [2, 4],
            "potrs": [5, 7], "syr": [5], "ger": [7], "gemm": [11]}


OVERWRITE = {"overwrite_a": 0, "overwrite_b": 1, "overwrite_x": 0, "overwrite_c": 0, "overwrite_input": 0}


def overwritten(d, args, kws):
    """positions of the arguments a library call may overwrite because an option says so"""
    from .terms import cval, is_const
    out = []
    for k, v in kws:
        if not is_const(v):
            continue
        if k in OVERWRITE and cval(v) and d.startswith(("scipy.", "numpy.")):
            out.append(OVERWRITE[k])
        if k == "copy" and cval(v) is False and d == "numpy.nan_to_num":
            out.append(0)
    return [i for i in out if i < len(args)]


def blas_name(d):
    for p in ("scipy.linalg.cython_blas.", "scipy.linalg.cython_lapack."):
        if d.startswith(p):
            return d[len(p) + 1:]
    return None


ALLOC_NP = {"numpy." + n for n in ("zeros", "empty", "ones", "full", "array", "arange", "zeros_like", "empty_like", "full_like",
                                   "ones_like", "copy", "eye", "linspace", "identity")}
ALLOC_OTHER = {"__construct__", "builtins.list", "builtins.set", "builtins.dict", "libc.stdlib.malloc", "libc.stdlib.calloc", "scipy.sparse.lil_matrix",
               "copy.copy", "copy.deepcopy", "builtins.bytearray", "collections.OrderedDict", "builtins.sorted"}
SPARSE_CTOR = {"scipy.sparse.csr_matrix": "csr", "scipy.sparse.coo_matrix": "coo", "scipy.sparse.csc_matrix": "csc"}

MUT_METHODS = {"sort", "fill", "resize", "put", "itemset", "partition", "sort_indices", "eliminate_zeros", "sum_duplicates", "setdiag",
               "prune", "append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "reverse", "add",
               "discard", "setflags", "byteswap_inplace", "push_back", "emplace_back", "emplace", "pop_back", "insert_or_assign", "assign_rows"}
PURE_METHODS = {"dot", "astype", "tocsr", "tocoo", "tocsc", "tolil", "todense", "toarray", "max", "min", "sum", "mean", "std", "reshape", "ravel",
                "flatten", "copy", "to_numpy", "squeeze", "any", "all", "items", "keys", "values", "get", "nonzero", "transpose", "argsort",
                "cumsum", "sorted_indices", "item", "tolist", "endswith", "startswith", "format", "encode", "decode", "join", "split",
                "lower", "upper", "replace", "strip", "view", "power", "multiply", "getrow", "getcol", "diagonal", "size", "begin", "end",
                "find", "count", "empty", "index", "clip", "repeat", "take", "argmax", "argmin", "argpartition", "searchsorted", "sqrt",
                "asstr", "nnz", "T", "getnnz", "conj", "is_integer", "union", "isdigit", "to_csr", "asformat", "asfptype", "round", "prod",
                "minimum", "maximum", "getformat", "get_shape", "intersection", "difference", "rstrip", "lstrip", "rpartition", "partition_"}
RNG_METHODS = {"random", "integers", "choice", "standard_normal", "uniform", "permutation", "randint", "randn", "rand", "normal",
               "random_sample", "bytes", "shuffle", "permuted", "generate", "beta", "exponential", "gamma", "poisson", "binomial", "spawn"}
# methods of the GPU solver objects that write into an argument
METHOD_ARG_MUT = {"least_squares": [1], "calculate_yty": [1], "shuffle": [0], "readinto": [0]}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "asformat", "asfptype"}
MEM_ATTRS = {"data", "indices", "indptr", "row", "col", "T", "flat", "real", "base"}
NUM_CALLS = {"builtins.len", "builtins.int", "builtins.float", "builtins.min", "builtins.max", "builtins.abs", "builtins.sum",
             "builtins.bool", "numpy.isscalar", "numpy.finfo", "multiprocessing.cpu_count", "os.cpu_count", "builtins.round", "builtins.id"}
ARR_CALLS = ALLOC_NP | {"numpy.asarray", "numpy.append", "numpy.concatenate", "numpy.stack", "numpy.ediff1d", "numpy.bincount",
                        "numpy.repeat", "numpy.in1d", "numpy.unique", "numpy.setdiff1d", "numpy.where", "numpy.argsort", "numpy.flatnonzero",
                        "numpy.searchsorted", "numpy.clip", "numpy.delete", "numpy.ravel", "numpy.cumsum", "numpy.transpose", "numpy.log",
                        "numpy.sqrt", "numpy.outer", "numpy.isnan", "numpy.nonzero", "numpy.hstack", "numpy.vstack", "numpy.sort", "numpy.c_",
                        "numpy.r_", "numpy.squeeze", "numpy.intersect1d", "numpy.union1d", "numpy.diff", "numpy.log1p", "numpy.log2",
                        "numpy.invert", "numpy.logical_not", "numpy.logical_and", "numpy.logical_or", "numpy.bitwise_not", "numpy.ascontiguousarray"}
ARR_METHODS = {"argsort", "cumsum", "copy", "astype", "ravel", "reshape", "flatten", "nonzero", "repeat", "to_numpy", "tocsr", "tocoo", "dot",
               "random", "choice", "permutation", "standard_normal"}


def scalar_fact(eng, st, t):
    return eng.decide(mk("truth", mk("call", "numpy.isscalar", (t,), ())), st)


def kind(eng, t, st):
    """'num' | 'arr' | 'sparse' | 'str' | 'bool' | 'none' | 'list' | 'dict' | 'obj' | None"""
    op = t.op
    if op == "const":
        n = t.a[0]
        return {"int": "num", "float": "num", "bool": "bool", "str": "str", "NoneType": "none"}.get(n, "obj")
    if op == "param":
        k = eng.param_kinds.get(t.a[0])
        if k:
            return k
        if st is not None:
            f = scalar_fact(eng, st, t)
            if f is True:
                return "num"
        return None
    if op in ("lv", "sizeof", "un_not"):
        return "num"
    if op == "cast":
        return "num"
    if op in ("alloc",):
        d = t.a[0]
        if d in ("builtins.list", "builtins.sorted"):
            return "list"
        if d in ("builtins.dict",):
            return "dict"
        if d in SPARSE_CTOR:
            return "sparse"
        if d in ALLOC_NP:
            return "arr"
        return "obj"
    if op == "list":
        return "list"
    if op == "tuple":
        return "tuple"
    if op == "call":
        if t.a[0] in NUM_CALLS:
            return "num"
        if t.a[0] in SPARSE_CTOR:
            return "sparse"
        if t.a[0] in ("numpy.any", "numpy.all", "numpy.max", "numpy.min", "numpy.sum", "numpy.mean"):
            return "num" if not any(k == "axis" and v is not NONE for k, v in t.a[2]) else "arr"
        if t.a[0] in ARR_CALLS:
            return "arr"
        if t.a[0] == "numpy.linalg.norm":
            return "arr" if any(k == "axis" for k, v in t.a[2]) else None
        return None
    if op == "meth":
        n = t.a[1]
        if n in ("max", "min", "sum", "mean", "any", "all", "size", "item"):
            return None if t.a[2] or t.a[3] else "num"
        if n in ("tocsr", "tocoo", "tocsc", "sorted_indices"):
            return "sparse"
        if n in ("astype", "copy"):
            return kind(eng, t.a[0], st)
        if n in ("argsort", "cumsum", "ravel", "reshape", "flatten", "nonzero", "to_numpy"):
            return "arr"
        return None
    if op == "bin":
        l, r = kind(eng, t.a[1], st), kind(eng, t.a[2], st)
        if "arr" in (l, r):
            return "arr"
        if "sparse" in (l, r):
            return "sparse"
        if l == "num" and r == "num" or (l, r) in (("num", "bool"), ("bool", "num")):
            return "num"
        if "str" in (l, r):
            return "str"
        return None
    if op == "un":
        return kind(eng, t.a[1], st)
    if op == "cmp":
        l, r = kind(eng, t.a[1], st), kind(eng, t.a[2], st)
        if "arr" in (l, r):
            return "arr"
        return "bool" if l in ("num", "str", "bool") and r in ("num", "str", "bool") else None
    if op in ("isnone", "truth", "isinst"):
        return "bool"
    if op == "attr":
        if t.a[1] in ("data", "indices", "indptr", "row", "col", "item_factors", "user_factors", "deriv_sum_sq"):
            return "arr"
        if t.a[1] == "shape":
            return "tuple"
        if t.a[1] in ("size", "nnz", "ndim"):
            return "num"
        if t.a[1] == "T":
            return kind(eng, t.a[0], st)
        return None
    if op == "sub":
        if t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            return "num"
        bk = kind(eng, t.a[0], st)
        if t.a[0].op == "attr" and t.a[0].a[1] in ("data", "indices", "indptr", "row", "col") and kind(eng, t.a[1], st) == "num":
            return "num"
        if bk == "sparse":
            return "sparse"
        if bk == "arr":
            return "arr" if kind(eng, t.a[1], st) == "arr" or t.a[1].op == "slice" else None
        return None
    if op in ("inpl", "upd"):
        return kind(eng, t.a[0], st)
    if op == "elem":
        if t.a[0].op == "call" and "nonzeros" in t.a[0].a[0]:
            return "tuple"
        return None
    if op == "new":
        return "obj"
    if op == "merge":
        ks = {kind(eng, x, st) for x in t.a[0]}
        return ks.pop() if len(ks) == 1 else None
    return None


def ident(t):
    """strip in-place update wrappers: the object itself"""
    while t.op in ("inpl", "upd"):
        t = t.a[0]
    return t


def fmt(eng, t, st):
    """sparse format, if known"""
    t = ident(t)
    if t.op == "param" or t.op == "attr" or t.op == "sub" or t.op == "elem":
        if st is not None:
            for n, f in (("csr_matrix", "csr"), ("coo_matrix", "coo"), ("csc_matrix", "csc")):
                if eng.decide(mk("isinst", t, mk("glob", "scipy.sparse." + n)), st) is True:
                    return f
        if t.op == "attr" and t.a[1] == "T":
            return {"csr": "csc", "csc": "csr", "coo": "coo"}.get(fmt(eng, t.a[0], st))
        if t.op == "sub":
            return fmt(eng, t.a[0], st)
        return None
    if t.op in ("call", "alloc") and t.a[0] in SPARSE_CTOR:
        return SPARSE_CTOR[t.a[0]]
    if t.op == "meth":
        n = t.a[1]
        if n in ("tocsr", "tocoo", "tocsc"):
            return n[2:]
        if n in ("astype", "copy", "sorted_indices"):
            return fmt(eng, t.a[0], st)
        if n == "transpose":
            return {"csr": "csc", "csc": "csr", "coo": "coo"}.get(fmt(eng, t.a[0], st))
    if t.op == "bin" and t.a[0] in ("*", "/"):
        for x in t.a[1:]:
            f = fmt(eng, x, st)
            if f:
                return f
    return None


def kwget(kws, name, default=None):
    for k, v in kws:
        if k == name:
            return v
    return default


def same_object(eng, t, st):
    """the origin object this term is (possibly) the very same Python object as"""
    t = ident(t)
    if t.op == "meth" and t.a[1] in ("tocsr", "tocoo", "tocsc"):
        f = fmt(eng, t.a[0], st)
        cp = kwget(t.a[3], "copy")
        if cp is not None and is_const(cp) and cval(cp) is True:
            return t
        if f is None or f == t.a[1][2:]:
            src = ident(t.a[0])
            notfmt = st is not None and eng.decide(mk("isinst", src, mk("glob", "scipy.sparse.%s_matrix" % t.a[1][2:])), st) is False
            return t if notfmt else same_object(eng, t.a[0], st)
    if t.op in ("call", "alloc") and t.a[0] in ("numpy.asarray", "numpy.ascontiguousarray") and t.a[1]:
        return same_object(eng, t.a[1][0], st)
    return t


def index_is_view(eng, idx, st):
    """True view, False copy, None unknown"""
    if idx.op == "slice":
        return True
    if idx.op == "tuple":
        rs = [index_is_view(eng, x, st) for x in idx.a[0]]
        return False if False in rs else (None if None in rs else True)
    if idx.op == "const":
        return True
    k = kind(eng, idx, st)
    if k in ("num",):
        return True
    if k in ("arr", "list", "sparse"):
        return False
    if idx.op == "cmp" or idx.op == "un":
        return False
    if idx.op == "param" and st is not None:
        f = scalar_fact(eng, st, idx)
        return f
    return None


def roots(eng, t, st, depth=0):
    """objects whose memory t (possibly) is or points into"""
    if depth > 30:
        return set()
    t = same_object(eng, t, st)
    rec = lambda x: roots(eng, x, st, depth + 1)  # noqa: E731
    op = t.op
    if op in ("param", "self", "new"):
        return {t}
    if op == "alloc":
        if t.a[0] in SPARSE_CTOR:
            return {t} | ctor_roots(eng, t, st, rec)
        return {t}
    if op == "attr":
        if t.a[1] in MEM_ATTRS:
            b = ident(t.a[0])
            f = fmt(eng, b, st)
            if b.op == "meth" and b.a[1] in ("tocoo", "tocsr", "tocsc"):
                src = fmt(eng, b.a[0], st)
                cp = kwget(b.a[3], "copy")
                if src is not None and src != b.a[1][2:]:
                    # conversion copies, except csr.tocoo(copy=False)
                    if not (cp is not None and is_const(cp) and cval(cp) is False) or b.a[1] != "tocoo":
                        return {t}
                    return rec(b.a[0])
            del f
            return rec(t.a[0])
        return {t}
    if op == "sub":
        b = ident(t.a[0])
        bk = kind(eng, b, st)
        if bk == "sparse" or fmt(eng, b, st):
            return {t}
        v = index_is_view(eng, t.a[1], st)
        if v is False:
            return {t}
        if bk in ("list", "tuple", "dict"):
            return {t}
        return rec(b)
    if op == "meth":
        if t.a[1] in VIEW_METHODS:
            return rec(t.a[0])
        if t.a[1] == "astype":
            c = kwget(t.a[3], "copy")
            if c is not None and is_const(c) and cval(c) is False:
                return rec(t.a[0])
            return {t}
        if t.a[1] in ("tocsr", "tocoo", "tocsc"):
            return {t}
        return {t}
    if op == "call":
        if t.a[0] in ("numpy.transpose", "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.asarray", "numpy.atleast_1d",
                      "numpy.atleast_2d", "numpy.ascontiguousarray", "numpy.swapaxes", "numpy.expand_dims") and t.a[1]:
            return rec(t.a[1][0])
        if t.a[0] in SPARSE_CTOR:
            return {t} | ctor_roots(eng, t, st, rec)
        return {t}
    if op == "addr":
        return rec(t.a[0])
    if op == "elem":
        return {t}
    return {t}


def ctor_roots(eng, t, st, rec):
    if not t.a[1]:
        return set()
    c = kwget(t.a[2], "copy")
    if c is not None and is_const(c) and cval(c) is True:
        return set()
    x = t.a[1][0]
    if x.op == "tuple":
        return set()
    f = fmt(eng, x, st)
    if f is None or f == SPARSE_CTOR[t.a[0]]:
        dt = kwget(t.a[2], "dtype")
        if dt is not None:
            return set()
        return rec(x)
    return set()


_mut_cache = {}


def mutated_params(proj, func, depth=0):
    """parameter names a function writes through (syntactic may-analysis used for calls that are not inlined)"""
    key = (id(proj), func.qual)
    if key in _mut_cache:
        return _mut_cache[key]
    _mut_cache[key] = set()
    if depth > 6:
        return set()
    alias = {p: p for p in func.params + func.kwonly}

    def base(e):
        while True:
            if isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            elif isinstance(e, ast.Attribute):
                if e.attr in MEM_ATTRS:
                    e = e.value
                else:
                    return None
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("__addr__", "dereference") and e.args:
                e = e.args[0]
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
                e = e.args[1]
            elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
                b = base(e.left)
                return b
            elif isinstance(e, ast.Name):
                return alias.get(e.id)
            else:
                return None

    out = set()

    def hit(e):
        b = base(e)
        if b:
            out.add(b)

    for _ in range(2):
        for n in ast.walk(func.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                if n.value is None:
                    continue
                for t in tg:
                    if isinstance(t, ast.Name):
                        v = n.value
                        if isinstance(v, (ast.Name,)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("__addr__", "__cast__")):
                            b = base(v)
                            if b and t.id not in func.params:
                                alias[t.id] = b
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for tt, vv in zip(t.elts, n.value.elts):
                            if isinstance(tt, ast.Name):
                                b = base(vv)
                                if b and isinstance(vv, ast.Call):
                                    alias[tt.id] = b
                            elif isinstance(tt, ast.Subscript):
                                hit(tt)
                    elif isinstance(t, ast.Subscript):
                        hit(t)
                    elif isinstance(t, ast.Attribute) and t.attr in MEM_ATTRS:
                        hit(t)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Subscript):
                    hit(n.target)
                elif isinstance(n.target, ast.Name) and n.target.id in alias:
                    ct = func.argtypes.get(n.target.id) or func.ctypes.get(n.target.id)
                    d = func.defaults.get(n.target.id)
                    num = isinstance(d, ast.Constant) and isinstance(d.value, (int, float))
                    if not ct and not num and n.target.id in func.params:
                        out.add(alias[n.target.id])
            elif isinstance(n, ast.Call):
                nm = ast.unparse(n.func)
                short = nm.rsplit(".", 1)[-1]
                if short in ("memcpy", "memset", "memmove", "heappush", "heappop", "heappushpop", "shuffle") and n.args:
                    hit(n.args[0])
                elif isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS and n.func.attr not in ("add", "update", "append", "insert", "clear"):
                    hit(n.func.value)
                elif "blas" in nm or "lapack" in nm:
                    for i in BLAS_OUT.get(short[1:], []):
                        if i < len(n.args):
                            hit(n.args[i])
                elif isinstance(n.func, ast.Name):
                    g = func.mod.funcs.get(n.func.id)
                    if g is None and n.func.id in func.mod.imports:
                        g = proj.resolve(func.mod.imports[n.func.id])
                    if g is None and n.func.id == "select":
                        for i in (4, 5):
                            if i < len(n.args):
                                hit(n.args[i])
                    if g is not None and hasattr(g, "params") and g is not func:
                        mp = mutated_params(proj, g, depth + 1)
                        for i, a in enumerate(n.args):
                            if i < len(g.params) and g.params[i] in mp:
                                hit(a)
                        for k in n.keywords:
                            if k.arg in mp:
                                hit(k.value)
    out = {o for o in out if o != "self"}
    _mut_cache[key] = out
    return out
