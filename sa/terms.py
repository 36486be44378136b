"""Hash-consed value terms (the value numbers of the analysis)."""


class T:
    __slots__ = ("op", "a", "uid", "_roots")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


_table = {}


def mk(op, *a):
    key = (op, a)
    try:
        t = _table.get(key)
    except TypeError:
        raise TypeError("unhashable term %s %r" % (op, a))
    if t is None:
        t = T()
        t.op, t.a, t.uid = op, a, len(_table)
        _table[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def glob(d):
    return mk("glob", d)


def kids(t):
    """direct sub terms"""
    out = []
    st = list(t.a)
    while st:
        x = st.pop(0)
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            st[0:0] = list(x)
    return out


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, s):
    return any(x is s for x in walk(t))


def rewrite(t, f):
    """bottom-up rewriting; f(term)->term"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            r = f(mk(x.op, *[go(y) for y in x.a]))
            memo[x] = r
        return r

    return go(t)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return repr(t)
    if d > 7:
        return "..."
    s = lambda x: show(x, d + 1)  # noqa: E731
    op, a = t.op, t.a
    if op == "const":
        return repr(a[1])
    if op in ("param", "glob"):
        return a[0]
    if op == "self":
        return "self"
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if op in ("tuple", "list"):
        return ("(%s)" if op == "tuple" else "[%s]") % ", ".join(s(x) for x in a[0])
    if op in ("call", "alloc"):
        kw = ["%s=%s" % (k, s(v)) for k, v in a[2]]
        return "%s(%s)" % (a[0], ", ".join([s(x) for x in a[1]] + kw))
    if op == "meth":
        kw = ["%s=%s" % (k, s(v)) for k, v in a[3]]
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + kw))
    if op == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "un":
        return "(%s%s)" % (a[0], s(a[1]))
    if op == "isnone":
        return "(%s is None)" % s(a[0])
    if op == "truth":
        return s(a[0])
    if op == "isinst":
        return "isinstance(%s, %s)" % (s(a[0]), s(a[1]))
    if op == "new":
        return "%s#%s" % (a[0].rsplit(".", 1)[-1], a[2])
    if op == "elem":
        return "elem(%s)#%s" % (s(a[0]), a[2])
    if op == "lv":
        return "i%s#%s" % (a[0], a[1])
    if op == "inpl":
        return "%s' " % s(a[0])
    if op == "upd":
        return "%s{%s:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))
