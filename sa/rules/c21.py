"""C21: neighbour searches start from empty accumulators, add up every contribution of an item, and keep the K best."""
import ast

from .. import api
from .. import model as M
from .. import native as NV
from ..project import AnalysisBroken
from ..terms import NONE, T, cval, is_const, kids, mk, walk
from .c07 import where

MINIMUM = {"heaps": 1}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
REV = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
OTHER_ALGO = {"make_heap", "nth_element", "partial_sort", "sort", "partial_sort_copy", "stable_sort"}


def check(ctx):
    proj = ctx.proj
    ctx.rule("displace", "an entry is taken out of a full heap only for a strictly larger score, and a score is only dropped when the heap is full of scores at least as large")
    ctx.rule("heap", "a bounded selection keeps its smallest entry in front: every heap operation uses the same greater-than order, pops go through pop_heap and pushes through push_heap")
    ctx.rule("entry", "the entries are (score, index) pairs, ordered by the score that is compared")
    ctx.rule("accumulate", "adding a contribution adds it to the sum of its own item, and registers the item exactly once")
    ctx.rule("drain", "draining reports every registered item with its sum and puts sums, links, head and length back to their initial state")
    ctx.rule("clean", "every computation drains what it accumulated, and collects into an empty result")
    ctx.rule("contributions", "every entry of the rows involved contributes its own value to its own item")
    ctx.rule("output", "each result is stored once, with its own index and score, in its own position")
    cpp = proj.cpp
    if not cpp.classes and not cpp.funcs:
        raise AnalysisBroken("no native code found")
    accs = {}
    for k in cpp.classes.values():
        for f in k.methods.values():
            if not NV.private_helper(proj, f):
                heap(ctx, f, k)
        r = accumulator(ctx, k)
        if r:
            accs[k.name if hasattr(k, "name") else k.qual.rsplit(".", 1)[-1]] = r
    for f in cpp.funcs.values():
        if not NV.private_helper(proj, f):
            heap(ctx, f, None)
    for f in NV.kernels(proj):
        if f.mod.name != NV.MOD_KNN or NV.private_helper(proj, f):
            continue
        search(ctx, f, accs)


def root(t):
    """object behind mutations"""
    t = M.ident(t)
    while t.op in ("inpl", "upd"):
        t = M.ident(t.a[0])
    return t


def statements(p):
    """comparisons that hold on a path, as (a, op, b), each both ways round"""
    for k, v in p.st.facts.items():
        if k.op == "cmp" and k.a[0] in NEG:
            op, a, b = k.a
            if not v:
                op = NEG[op]
            yield a, op, b
            yield b, REV[op], a


def uncast(t):
    while t.op == "cast":
        t = t.a[-1]
    return t


# -- bounded heaps

def container(ev):
    if ev.kind == "mut" and ev.d[1] in (".push_back", ".emplace_back", ".pop_back"):
        return root(ev.d[0])
    return None


def heap(ctx, f, k):
    e, paths = NV.run(ctx, f, k)
    algo = [ev for p in paths for ev in p.events if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].rsplit(".", 1)[-1] in ("pop_heap", "push_heap")]
    if not algo:
        return
    cons = {container(ev) for p in paths for ev in p.events} - {None}
    ctx.saw("heaps", f.qual)
    other = [ev for p in paths for ev in p.events if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].rsplit(".", 1)[-1] in OTHER_ALGO]
    if other or len(cons) != 1:
        ctx.saw("not_understood", "%s: heap over %s" % (f.qual, [str(x) for x in cons]))
        return
    R = next(iter(cons))
    order(ctx, f, k, R, algo, paths)
    inner = set()
    for p in paths:
        loops = []
        for ev in p.events:
            if ev.kind == "iter":
                loops.append(ev.d[0])
            elif ev.kind == "loopend" and ev.d[0] in loops:
                loops = loops[:loops.index(ev.d[0])]
            elif container(ev) is R and ev.d[1] != ".pop_back" and loops:
                inner.add(loops[-1])
    for p in paths:
        if p.kind == "ret":
            step(ctx, f, p, R, inner)
    restart(ctx, f, k, R)


def restart(ctx, f, k, R):
    """a heap used for several rows is emptied in between"""
    e, paths = NV.run(ctx, f, k, loops=2)
    at = dict(R.a[2]).get("at") if R.op in ("call", "alloc") and R.a[0] == "__construct__" else None
    for p in paths:
        outer, row, dirty, depth = None, 0, None, 0
        for ev in p.events:
            if ev.kind == "loop":
                depth += 1
                if depth == 1:
                    outer, row, dirty = ev.d[0], 0, None
                    if at is not None and made_in(e, outer, cval(at)):
                        return
            elif ev.kind == "loopend":
                depth -= 1
            elif ev.kind == "iter" and ev.d[0] == outer:
                row = ev.d[1]
            elif ev.kind == "mut" and root(ev.d[0]) is R:
                if ev.d[1] in (".push_back", ".emplace_back"):
                    if depth > 1:
                        ctx.obligation("clean", f.qual)
                        if dirty is not None and dirty < row:
                            ctx.violation("clean", f.qual, "the entries of the previous row are still in the heap", ev.where, api.path_steps(p.events))
                            return
                    dirty = row
                elif ev.d[1] != ".pop_back":
                    dirty = None
            elif ev.kind == "set" or ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0] in ("method:swap", "swap", "move"):
                dirty = None


def made_in(e, sid, at):
    import ast
    node = next((n for i, n in e._sites.values() if i == sid), None)
    if node is None:
        return False
    return any(isinstance(x, ast.keyword) and x.arg == "at" and isinstance(x.value, ast.Constant) and x.value.value == at for x in ast.walk(node))


def heap_args(ev):
    a = ev.d[1][-2] if len(ev.d[1]) > 1 else ()
    return a


def order(ctx, f, k, R, algo, paths):
    ctx.obligation("heap", f.qual)
    ops = [ev for p in paths for ev in p.events if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].rsplit(".", 1)[-1] in ("pop_heap", "push_heap", "sort_heap")]
    for ev in ops:
        a = heap_args(ev)
        n = ev.d[0].rsplit(".", 1)[-1]
        if len(a) < 3:
            ctx.violation("heap", "%s:%s" % (f.qual, n), "%s without an order keeps the largest entry in front, which is then displaced first" % n, ev.where, [])
            continue
        ty = order_type(a[2], k)
        if ty is None:
            ctx.saw("not_understood", "%s: order %s" % (f.qual, str(a[2])[:60]))
        elif "less<" in ty or "less_equal" in ty:
            ctx.violation("heap", "%s:%s" % (f.qual, n), "%s with %s keeps the largest entry in front" % (n, ty), ev.where, [])


def order_type(t, k):
    t = M.ident(t)
    if t.op in ("call", "alloc") and t.a[0] == "__construct__":
        d = dict(t.a[2])
        return cval(d["type"]) if "type" in d else None
    if t.op == "attr" and k is not None and t.a[0].op == "self":
        return k.fields.get(t.a[1])
    return None


def size_of(t, R):
    t = uncast(t)
    return t.op == "meth" and t.a[1] == "size" and root(t.a[0]) is R


def top_of(t, R):
    """'first' / 'second' / '' when t is (a component of) the front of R"""
    t = uncast(t)
    comp = ""
    if t.op == "attr" and t.a[1] in ("first", "second"):
        comp, t = t.a[1], M.ident(t.a[0])
    if t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) == 0 and root(t.a[0]) is R or t.op == "meth" and t.a[1] == "front" and root(t.a[0]) is R:
        return comp
    return None


def pair_of(ev):
    v = ev.d[3]
    if not isinstance(v, T) or v.op != "meth":
        return None
    args = v.a[2]
    if len(args) == 2:
        return args
    if len(args) == 1:
        x = uncast(M.ident(args[0]))
        if x.op in ("call", "alloc") and x.a[0].rsplit(".", 1)[-1] in ("make_pair", "__construct__", "pair") and len(x.a[1]) == 2:
            return x.a[1]
        if x.op in ("tuple", "list") and len(x.a[0]) == 2:
            return x.a[0]
    return None


def step(ctx, f, p, R, inner=()):
    """one score offered to the heap"""
    name = f.qual
    steps = api.path_steps(p.events)
    ctx.obligation("displace", name)
    push, pop, seq = None, None, []
    for ev in p.events:
        c = container(ev)
        if c is R:
            seq.append(ev.d[1][1:])
            if ev.d[1] == ".pop_back":
                pop = ev
            else:
                push = ev
        elif ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].rsplit(".", 1)[-1] in ("pop_heap", "push_heap"):
            seq.append(ev.d[0].rsplit(".", 1)[-1])
    for i, s in enumerate(seq):
        if s == "pop_back" and (i == 0 or seq[i - 1] != "pop_heap"):
            ctx.violation("heap", name + ":pop", "the last entry is removed without moving the smallest one there first", pop.where, steps)
        if s in ("push_back", "emplace_back") and (i + 1 == len(seq) or seq[i + 1] != "push_heap"):
            ctx.violation("heap", name + ":push", "an entry is added without restoring the heap", push.where, steps)
        if s == "pop_heap" and (i + 1 == len(seq) or seq[i + 1] != "pop_back"):
            ctx.violation("heap", name + ":pop", "the smallest entry is moved to the end but not removed", where(f), steps)
    # facts
    full = room = bigger = smaller = None
    limit, score = None, None
    zero = False
    pr = pair_of(push) if push is not None else None
    if pr is not None:
        score = uncast(M.ident(pr[0]))
    for a, op, b in statements(p):
        if size_of(a, R):
            if is_const(uncast(b)) and cval(uncast(b)) == 0:
                if op in ("==", "<=") or op == "<":
                    room = room or "empty"
                continue
            limit = b
            if op == "<":
                room = True
            elif op in (">=", ">"):
                full = op
            elif op == "<=":
                room = "<="
            elif op == "==":
                full = ">="
            elif op == "!=":
                room = True
        c = top_of(a, R)
        if c is not None:
            if c == "second":
                ctx.violation("entry", name + ":compare", "scores are compared with the index of the smallest entry", where(f), steps)
                return
            if score is None:
                score = uncast(b)
            if op == "<":
                bigger = True
            elif op == "<=":
                bigger = bigger or "<="
            elif op == ">=":
                smaller = True
            elif op == ">":
                smaller = smaller or ">"
        if op in ("==", "<", "<=") and is_const(uncast(b)) and cval(uncast(b)) in (0, 1) and uncast(a).op in ("attr", "param") and not size_of(a, R) and limit_like(a, R, p):
            zero = True
    if pr is not None:
        ctx.obligation("entry", name)
        for x, op, y in statements(p):
            if top_of(x, R) == "first" and uncast(y) is not score:
                if uncast(y) is uncast(M.ident(pr[1])):
                    ctx.violation("entry", name + ":pair", "entries are (index, score) pairs although their first component is compared with scores", push.where, steps)
                    return
    if limit is not None:
        l = NV.linear(uncast(limit))
        core = [x for x in l if x != 1]
        if len(core) == 1 and l[core[0]] == 1 and l.get(1, 0):
            ctx.violation("displace", name + ":size", "the heap is bounded by K%+d" % l[1], where(f), steps)
            return
    if pop is not None and push is not None and seq.index("pop_back") > min(i for i, s in enumerate(seq) if s in ("push_back", "emplace_back")):
        # added first, the smallest removed afterwards
        if full == ">=":
            ctx.violation("displace", name + ":size", "an entry is removed although there are no more than K", pop.where, steps)
        return
    if pop is not None:
        if push is None:
            ctx.violation("displace", name + ":lost", "an entry is removed and none is added", pop.where, steps)
        elif room is True:
            ctx.violation("displace", name + ":room", "an entry is displaced although the heap is not full", pop.where, steps)
        elif bigger is not True:
            ctx.violation("displace", name, "the smallest entry is displaced %s" % ("by an equal score" if bigger == "<=" else "by a score that is not larger" if smaller else "without comparing it with the new score"), pop.where, steps)
        return
    if push is not None:
        if full or room == "<=":
            ctx.violation("displace", name + ":size", "an entry is added although the heap is already full", push.where, steps)
        elif room is None and limit is None:
            ctx.violation("displace", name + ":size", "an entry is added whatever the size of the heap", push.where, steps)
        return
    if zero:
        return
    if not offered(p, R) and not any(ev.kind == "iter" and ev.d[0] in inner for ev in p.events):
        return
    if not full:
        ctx.violation("displace", name + ":drop", "a score is dropped although the heap is not full", where(f), steps)
    elif not smaller:
        ctx.violation("displace", name + ":drop", "a score is dropped without being compared with the smallest one kept" if bigger is None else "a larger score is dropped", where(f), steps)


def offered(p, R):
    """a score was looked at on this path"""
    return any(size_of(a, R) or top_of(a, R) is not None for a, op, b in statements(p)) or not any(ev.kind == "loop" for ev in p.events)


def limit_like(a, R, p):
    for x, op, y in statements(p):
        if size_of(x, R) and uncast(y) is uncast(a):
            return True
    return uncast(a).op == "attr" and uncast(a).a[1] in ("K", "k") or uncast(a).op == "param" and uncast(a).a[0] in ("K", "k")


# -- the accumulator

def method_run(ctx, k, f):
    return NV.run(ctx, f, k)[1]


def accumulator(ctx, k):
    """{role: method name} of a class with vectors that are summed into and drained"""
    vecs = [a for a, t in k.fields.items() if "vector<" in str(t)]
    if not vecs:
        return None
    runs = {n: method_run(ctx, k, f) for n, f in k.methods.items()}
    self_ = None
    drain = [n for n, ps in runs.items() if any(ev.kind == "callv" and M.ident(ev.d[0]).op == "param" for p in ps for ev in p.events)]
    if len(drain) != 1 or "__init__" not in runs:
        return None
    ctx.saw("accumulators", k.qual)
    fd = k.methods[drain[0]]
    info = {"drain": drain[0]}
    # which vector holds the sums, which the links
    sums = nxt = None
    for p in runs[drain[0]]:
        for ev in p.events:
            if ev.kind == "callv" and len(ev.d[1]) == 2:
                x = M.ident(ev.d[1][1])
                if x.op == "sub" and root(x.a[0]).op == "attr":
                    sums = root(x.a[0])
            if ev.kind == "set" and isinstance(ev.d[2], T):
                x = M.ident(ev.d[2])
                if x.op == "sub" and root(x.a[0]).op == "attr" and root(x.a[0]) is not sums:
                    nxt = (root(x.a[0]), ev.d[1])
    if sums is None:
        # the value passed on is not read from the sums
        for p in runs[drain[0]]:
            for ev in p.events:
                if ev.kind == "callv" and len(ev.d[1]) == 2 and (is_const(M.ident(ev.d[1][1])) or M.ident(ev.d[1][1]).op == "sub"):
                    ctx.violation("drain", k.qual + ":value", "items are reported with %s instead of their sum" % str(ev.d[1][1])[:60], ev.where, api.path_steps(p.events))
                    return info
        ctx.saw("not_understood", k.qual + ": no sums are reported")
        return info
    info["sums"] = sums.a[1]
    if nxt is None:
        for p in runs[drain[0]]:
            item = next((uncast(M.ident(ev.d[1][0])) for ev in p.events if ev.kind == "callv" and ev.d[1]), None)
            for ev in p.events:
                if item is not None and item.op == "attr" and ev.kind == "mut" and ev.d[1] == "setitem" and root(ev.d[0]).op == "attr" and root(ev.d[0]) is not sums and uncast(M.ident(ev.d[2])) is item:
                    nxt = (root(ev.d[0]), item.a[1])
    if nxt is None:
        ctx.saw("not_understood", k.qual + ": no links between items")
    init = initial(runs["__init__"])
    adds = [n for n, ps in runs.items() if n not in ("__init__", drain[0]) and any(ev.kind == "mut" and root(ev.d[0]) is sums for p in ps for ev in p.events)]
    if len(adds) != 1:
        ctx.saw("not_understood", k.qual + ": methods adding to the sums: %s" % adds)
    else:
        info["add"] = adds[0]
        adding(ctx, k, k.methods[adds[0]], runs[adds[0]], sums, nxt, init)
    draining(ctx, k, fd, runs[drain[0]], sums, nxt, init)
    starting(ctx, k, sums, nxt, init)
    return info


def initial(paths):
    """{field: initial scalar, or fill value of a vector}"""
    out = {}
    for p in paths:
        for ev in p.events:
            if ev.kind == "set":
                v = M.ident(ev.d[2])
                if v.op in ("call", "alloc") and v.a[0] == "__construct__":
                    ty = dict(v.a[2]).get("type")
                    if ty is not None and "vector<" in str(cval(ty)) and v.a[1]:
                        fill = uncast(M.ident(v.a[1][1])) if len(v.a[1]) > 1 else None
                        fill = number(fill) if fill is not None else 0
                        if fill is None and len(v.a[1]) > 1 and uncast(M.ident(v.a[1][1])).op in ("call", "alloc") and str(uncast(M.ident(v.a[1][1])).a[0]).startswith("__opaque"):
                            fill = 0
                        out[ev.d[1]] = ("fill", fill)
                else:
                    out[ev.d[1]] = ("value", number(v))
    return out


def number(t):
    t = uncast(t)
    if is_const(t) and isinstance(cval(t), (int, float)):
        return cval(t)
    if t.op == "un" and t.a[0] == "-" and number(t.a[1]) is not None:
        return -number(t.a[1])
    return None


def starting(ctx, k, sums, nxt, init):
    ctx.obligation("drain", k.qual + ":start")
    s = init.get(sums.a[1])
    if s and s[1] not in (0, None):
        ctx.violation("drain", k.qual + ":start", "sums start at %s" % s[1], where(k.methods["__init__"]), [])
    if nxt:
        free, head = init.get(nxt[0].a[1]), init.get(nxt[1])
        if free and head and free[1] is not None and free[1] == head[1]:
            ctx.violation("drain", k.qual + ":end", "the end of the list and an unregistered item are both marked %s" % free[1], where(k.methods["__init__"]), [])


def adding(ctx, k, f, paths, sums, nxt, init):
    idx = mk("param", f.params[0] if f.params and f.params[0] != "self" else f.params[1] if len(f.params) > 1 else "index")
    free = init.get(nxt[0].a[1], (None, None))[1] if nxt else None
    val = [mk("param", a) for a in f.params if a != "self"]
    val = val[1] if len(val) > 1 else None
    linked_paths = 0
    for p in paths:
        if p.kind != "ret":
            continue
        steps = api.path_steps(p.events)
        ctx.obligation("accumulate", f.qual)
        done = False
        link = head = length = None
        for ev in p.events:
            if ev.kind == "mut" and root(ev.d[0]) is sums and ev.d[1] in ("aug+", "setitem", "aug-", "aug*", "aug/"):
                i, v = uncast(M.ident(ev.d[2])) if isinstance(ev.d[2], T) else None, uncast(M.ident(ev.d[3])) if isinstance(ev.d[3], T) else None
                if i is not None and i is not idx:
                    ctx.violation("accumulate", f.qual + ":index", "a contribution to %s is added to the sum of %s" % (idx, str(i)[:60]), ev.where, steps)
                    return
                if ev.d[1] == "aug+" and v is val:
                    done = True
                elif ev.d[1] == "setitem" and v is not None and v.op == "bin" and v.a[0] == "+" and any(uncast(x) is val for x in v.a[1:]) and any(uncast(x).op == "sub" and root(uncast(x).a[0]) is sums for x in v.a[1:]):
                    done = True
                elif ev.d[1] == "setitem" and v is val:
                    if empty_before(p, nxt, idx, free):
                        done = True
                        continue
                    ctx.violation("accumulate", f.qual + ":sum", "a contribution replaces the sum of its item", ev.where, steps)
                    return
                elif ev.d[1] != "aug+" and ev.d[1] != "setitem":
                    ctx.violation("accumulate", f.qual + ":sum", "contributions are not added up (%s)" % ev.d[1], ev.where, steps)
                    return
                else:
                    ctx.violation("accumulate", f.qual + ":sum", "%s is added instead of the contribution" % str(v)[:60], ev.where, steps)
                    return
            if nxt and ev.kind == "mut" and root(ev.d[0]) is nxt[0] and ev.d[1] == "setitem":
                link = ev
            if nxt and ev.kind == "set" and ev.d[1] == nxt[1]:
                head = ev
            if ev.kind == "mut" and ev.d[1] == "aug+" and ev.d[2] in (None, NONE) and root(ev.d[0]).op == "attr":
                length = ev
            if ev.kind == "set" and nxt and ev.d[1] != nxt[1] and ev.d[1] in k.fields:
                length = ev
        if not done:
            if not any(is_const(uncast(b)) and cval(uncast(b)) == 0 and uncast(a) is val and op == "==" for a, op, b in statements(p)):
                ctx.violation("accumulate", f.qual + ":sum", "a contribution is not added to the sum of its item", where(f), steps)
                return
            continue
        if not nxt:
            continue
        if not (link or head or length):
            for alt in p.st.full_facts():
                for t, v in alt.items():
                    if t.op == "cmp" and t.a[0] in ("==", "!=") and v is (t.a[0] == "=="):
                        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                            x = uncast(M.ident(a))
                            if x.op == "sub" and root(x.a[0]) is nxt[0] and uncast(x.a[1]) is idx and number(b) is not None and number(b) == free:
                                ctx.violation("accumulate", f.qual + ":register", "an item that is not registered yet is not registered on this path", where(f), steps)
                                return
        new = None
        for a, op, b in statements(p):
            x = uncast(M.ident(a))
            if x.op == "sub" and root(x.a[0]) is nxt[0] and uncast(x.a[1]) is idx and number(b) is not None:
                if number(b) == free or free is None:
                    new = True if op == "==" else False if op == "!=" else new
                elif op in ("<", "<=", ">", ">="):
                    new = "range"
                else:
                    ctx.violation("accumulate", f.qual + ":marker", "unregistered items are marked %s but recognised by %s" % (free, number(b)), where(f), steps)
                    return
        if new is True:
            linked_paths += 1
            for got, want, what in ((link, mk("attr", link.d[0].a[0], nxt[1]) if False else None, "linked to the items registered before"), (head, idx, "made the head of the list"), (length, None, "counted")):
                if got is None:
                    ctx.violation("accumulate", f.qual + ":register", "a new item is not %s" % what, where(f), steps)
                    return
            if uncast(M.ident(head.d[2])) is not idx:
                ctx.violation("accumulate", f.qual + ":head", "the list starts at %s after %s was registered" % (str(head.d[2])[:40], idx), head.where, steps)
            v = uncast(M.ident(link.d[3]))
            if uncast(M.ident(link.d[2])) is not idx:
                ctx.violation("accumulate", f.qual + ":link", "the link of %s is set when registering %s" % (str(link.d[2])[:40], idx), link.where, steps)
            elif not (v.op == "attr" and v.a[1] == nxt[1]):
                ctx.violation("accumulate", f.qual + ":link", "a new item is linked to %s instead of the previous head" % str(v)[:40], link.where, steps)
            if length.kind == "mut" and number(length.d[3]) not in (1, None):
                ctx.violation("accumulate", f.qual + ":count", "a new item is counted %s times" % number(length.d[3]), length.where, steps)
        elif new is False and (link or head or length):
            ctx.violation("accumulate", f.qual + ":twice", "an item that is already registered is registered again", (link or head or length).where, steps)
        elif new is None and (link or head or length):
            ctx.violation("accumulate", f.qual + ":twice", "an item is registered whether or not it already was", (link or head or length).where, steps)


def empty_before(p, nxt, idx, free):
    for a, op, b in statements(p):
        x = uncast(M.ident(a))
        if nxt and x.op == "sub" and root(x.a[0]) is nxt[0] and uncast(x.a[1]) is idx and number(b) == free and op == "==":
            return True
    return False


def draining(ctx, k, f, paths, sums, nxt, init):
    for n in ast.walk(f.node):
        if isinstance(n, ast.While) and any(sums.a[1] in (getattr(x, "id", None), getattr(x, "attr", None)) for x in ast.walk(n.test)):
            ctx.violation("drain", f.qual + ":stop", "draining stops at an item depending on its sum", "%s:%s (%s)" % (f.file, getattr(n, "lineno", "?"), f.qual))
            return
    for p in paths:
        if p.kind != "ret":
            continue
        steps = api.path_steps(p.events)
        ctx.obligation("drain", f.qual)
        inside = 0
        call = None
        resets = {}
        after = {}
        adv = None
        head0 = None
        loop = None
        for ev in p.events:
            if ev.kind == "loop":
                inside += 1
                loop = ev
            elif ev.kind == "loopend":
                inside -= 1
                if len(ev.d) > 1 and ev.d[1] == "break":
                    ctx.violation("drain", f.qual + ":stop", "draining can stop before every item was reported and reset", ev.where, steps)
                    return
            elif ev.kind == "callv":
                call = ev
            elif ev.kind == "mut" and root(ev.d[0]).op == "attr" and ev.d[1] == "setitem":
                resets[root(ev.d[0])] = ev
            elif ev.kind == "mut" and ev.d[1] in (".clear", ".assign") and root(ev.d[0]).op == "attr":
                resets[root(ev.d[0])] = ev
            elif ev.kind == "call" and ev.d[0] in ("fill", "std.fill") and len(ev.d[1][0]) == 3:
                x = M.ident(ev.d[1][0][0])
                if x.op == "meth":
                    resets[root(x.a[0])] = ev
            elif ev.kind == "set":
                if inside:
                    if nxt and ev.d[1] == nxt[1]:
                        adv = ev
                else:
                    after[ev.d[1]] = ev
        if call is None:
            if any(ev.kind == "iter" for ev in p.events) and not any(number(b) == 0 and op == "==" for a, op, b in statements(p)):
                ctx.violation("drain", f.qual + ":skip", "a registered item is not reported", where(f), steps)
            if not any(ev.kind == "iter" for ev in p.events):
                continue
        item = uncast(M.ident(call.d[1][0])) if call is not None else None
        if call is not None:
            v = uncast(M.ident(call.d[1][1])) if len(call.d[1]) > 1 else None
            if v is not None and not (v.op == "sub" and v.a[0] is sums and uncast(M.ident(v.a[1])) is item):
                ctx.violation("drain", f.qual + ":value", "item %s is reported with %s" % (str(item)[:40], str(v)[:60]), call.where, steps)
        for vec, want, what in ((sums, init.get(sums.a[1], (None, 0))[1], "sum"),) + (((nxt[0], init.get(nxt[0].a[1], (None, None))[1], "registration"),) if nxt else ()):
            r = resets.get(vec)
            if r is None:
                ctx.violation("drain", "%s:%s" % (f.qual, vec.a[1]), "the %s of a reported item is not reset" % what, where(f), steps)
                continue
            if r.kind == "mut" and r.d[1] == "setitem":
                i = uncast(M.ident(r.d[2]))
                if item is not None and i is not item:
                    ctx.violation("drain", "%s:%s" % (f.qual, vec.a[1]), "the %s of %s is reset instead of the reported item's" % (what, str(i)[:60]), r.where, steps)
                n = number(r.d[3])
                if n is not None and want is not None and n != want:
                    ctx.violation("drain", "%s:%s" % (f.qual, vec.a[1]), "the %s of a reported item is reset to %s instead of %s" % (what, n, want), r.where, steps)
                elif n is None and r.d[3].op in ("sub", "attr", "param"):
                    ctx.violation("drain", "%s:%s" % (f.qual, vec.a[1]), "the %s of a reported item is set to %s instead of being reset" % (what, str(r.d[3])[:60]), r.where, steps)
        if nxt and item is not None:
            if adv is None:
                ctx.violation("drain", f.qual + ":next", "the list is not advanced", where(f), steps)
            else:
                v = uncast(M.ident(adv.d[2]))
                if not (v.op == "sub" and v.a[0] is nxt[0] and uncast(M.ident(v.a[1])) is item):
                    if v.op in ("sub", "const", "un") or is_const(v):
                        ctx.violation("drain", f.qual + ":next", "the list is advanced to %s instead of the item linked before" % str(v)[:60], adv.where, steps)
        # scalars
        rng = loop.d[1] if loop is not None else None
        counted = isinstance(rng, T) and rng.op == "range"
        if counted:
            lo, hi = rng.a[0], rng.a[1]
            h = uncast(M.ident(hi))
            cnt = h.a[1] if h.op == "attr" else None
            l = NV.diff(hi, lo)
            core = [x for x in l if x != 1]
            if len(core) == 1 and l.get(1, 0):
                ctx.violation("drain", f.qual + ":count", "%+d of the registered items are reported" % l[1], loop.where, steps)
            for fld in filter(None, (cnt, nxt[1] if nxt else None)):
                want = init.get(fld, (None, None))[1]
                ev = after.get(fld)
                if ev is None:
                    if fld == cnt or want is not None and fld != cnt:
                        end_ok = fld != cnt
                        if not end_ok:
                            ctx.violation("drain", "%s:%s" % (f.qual, fld), "%s is not reset after draining" % fld, where(f), steps)
                    continue
                n = number(ev.d[2])
                if n is not None and want is not None and n != want:
                    ctx.violation("drain", "%s:%s" % (f.qual, fld), "%s is reset to %s instead of %s" % (fld, n, want), ev.where, steps)


# -- the searches

def is_acc(t, accs, f):
    """class name of the accumulator behind a receiver"""
    t = root(t)
    s = None
    if t.op in ("call", "alloc"):
        s = str(t.a[0])
    elif t.op == "attr" and f.cls is not None:
        s = str(f.cls.fields.get(t.a[1], ""))
    elif t.op == "param":
        s = str(f.argtypes.get(t.a[0], "")) if isinstance(f.argtypes, dict) else ""
    if s:
        for k in accs:
            if k in s:
                return k
    return None


def search(ctx, f, accs):
    e, paths = NV.run(ctx, f)
    uses = False
    for p in paths:
        for ev in p.events:
            if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:"):
                k = is_acc(ev.d[1][0], accs, f)
                if k and ev.d[0][7:] in (accs[k].get("add"), accs[k].get("drain")):
                    uses = True
    if not uses:
        return
    if all(any(x.op == "param" for x in [root(ev.d[1][0])]) for p in paths for ev in p.events
           if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:") and is_acc(ev.d[1][0], accs, f)):
        return              # a helper: followed from its callers
    ctx.saw("searches", f.qual)
    sites = {}
    for p in paths:
        contributions(ctx, f, p, accs, sites)
    for p in paths:
        skipped(ctx, f, p, accs, sites)
    e2, two = NV.run(ctx, f, loops=2)
    for p in two:
        clean(ctx, f, p, accs)
    res = None
    for p in paths:
        for ev in p.events:
            if ev.kind == "loop" and isinstance(ev.d[1], T) and any(x.op == "attr" and is_result(x, accs) for x in walk(ev.d[1])):
                res = next((n for i, n in e._sites.values() if i == ev.d[0]), res)
    if res is not None:
        e3, three = NV.run(ctx, f, unroll=lambda s, d: 2 if s is res else 1)
        for p in three:
            if p.kind == "ret":
                output(ctx, f, p, e3, res, accs)


def is_result(x, accs):
    b = root(x.a[0]) if x.op == "attr" else None
    return b is not None and b.op in ("call", "alloc") and str(b.a[0]).startswith("new:") and not any(k in str(b.a[0]) for k in accs)


def clean(ctx, f, p, accs):
    name = f.qual
    steps = api.path_steps(p.events)
    dirty = {}
    born, filled, fresh = set(), {}, {}
    for ev in p.events:
        if ev.kind == "alloc":
            fresh[root(ev.d[0])] = True
            born.add(root(ev.d[0]))
        if ev.kind == "free":
            dirty.pop(root(ev.d[0]), None)
        if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:"):
            m = ev.d[0][7:]
            k = is_acc(ev.d[1][0], accs, f)
            r = root(ev.d[1][0])
            if k and m == accs[k].get("add"):
                dirty[r] = ev
            elif k and m == accs[k].get("drain"):
                ctx.obligation("clean", name)
                dirty.pop(r, None)
                t = ev.d[1][1][0] if ev.d[1][1] else None
                t = root(deref(t)) if t is not None else None
                if t is not None:
                    if fresh.get(t) is False:
                        ctx.violation("clean", name + ":results", "results are collected on top of those of the previous item", ev.where, steps)
                        return
                    fresh[t] = False
                    filled[t] = True
            elif m == "clear":
                x = root(ev.d[1][0])
                t = root(x.a[0]) if x.op == "attr" else x
                if t in fresh or t in filled:
                    fresh[t] = True
                    filled[t] = False
        if ev.kind == "loop" and isinstance(ev.d[1], T):
            for x in walk(ev.d[1]):
                if x.op == "attr" and root(x.a[0]) in filled and filled[root(x.a[0])] is False:
                    ctx.violation("clean", name + ":lost", "results are cleared before they are stored", ev.where, steps)
                    return
        if ev.kind == "mut" and ev.d[1] in ("setitem", "aug+", "aug-", "aug*"):
            x = root(ev.d[0])
            if x.op == "attr" and is_acc(x.a[0], accs, f) and x.a[1] == accs[is_acc(x.a[0], accs, f)].get("sums"):
                ctx.obligation("clean", name + ":direct")
                n = number(ev.d[3]) if isinstance(ev.d[3], T) else None
                i = uncast(M.ident(ev.d[2])) if isinstance(ev.d[2], T) else None
                if i is not None and i.op == "lv" and any(y.op == "sub" and uncast(M.ident(y.a[0])).op in ("param", "attr") for b in i.a[2:4] if isinstance(b, T) for y in walk(b)):
                    ctx.violation("clean", name + ":direct", "the sum at the position of an entry is overwritten instead of the sum of its item", ev.where, steps)
                    return
                if ev.d[1] != "setitem" or n != 0:
                    if n is not None or ev.d[1] != "setitem":
                        ctx.violation("clean", name + ":direct", "%s is written to the sum of an item that may not be registered, and stays there for later calls" % (n if n is not None else str(ev.d[3])[:40]), ev.where, steps)
                        return
    for r, ev in dirty.items():
        if r.op == "attr" and p.kind in ("ret", "exc"):
            ctx.violation("clean", name + ":left", "what was accumulated here is never drained on this path and is added to the next result", ev.where, steps)
            return
    # within a loop that drains, everything is drained by the end of the iteration
    stack, drained = [], {}
    for ev in p.events:
        if ev.kind == "loop":
            stack.append([ev.d[0], {}, False])
        elif ev.kind == "iter" and stack:
            for s in stack:
                if s[0] == ev.d[0]:
                    if s[2] and s[1]:
                        ctx.violation("clean", name + ":carried", "contributions of one iteration are left for the next one", next(iter(s[1].values())).where, steps)
                        return
        elif ev.kind == "loopend":
            while stack and stack[-1][0] != ev.d[0]:
                stack.pop()
            if stack:
                s = stack.pop()
                if s[2] and s[1]:
                    ctx.violation("clean", name + ":carried", "contributions of one iteration are left for the next one", next(iter(s[1].values())).where, steps)
                    return
        elif ev.kind == "alloc":
            for s in stack:
                s[1].pop(root(ev.d[0]), None)
        elif ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:"):
            k = is_acc(ev.d[1][0], accs, f)
            if k:
                r = root(ev.d[1][0])
                for s in stack:
                    if ev.d[0][7:] == accs[k].get("add"):
                        s[1][r] = ev
                    elif ev.d[0][7:] == accs[k].get("drain"):
                        s[1].pop(r, None)
                        s[2] = True


def deref(t):
    t = M.ident(t)
    while t.op in ("call", "alloc") and t.a[0].rsplit(".", 1)[-1] in ("dereference", "__deref__") and t.a[1]:
        t = M.ident(t.a[1][0])
    return t


KINDS = ("indptr", "indices", "data")


def array_of(t, fields):
    """(matrix, kind) of a CSR array"""
    t = M.ident(t)
    while t.op == "meth" and t.a[1] in ("astype", "copy") or t.op in ("call", "alloc") and t.a[0].startswith("numpy.") and t.a[1] or t.op == "cast":
        t = M.ident(t.a[0] if t.op == "meth" else t.a[-1] if t.op == "cast" else t.a[1][0])
    if t.op == "attr" and t.a[1] in KINDS:
        return t.a[0], t.a[1]
    if t.op == "attr" and t.a[1] in fields:
        return array_of(fields[t.a[1]], {})
    if t.op == "param":
        for k in KINDS:
            if t.a[0].endswith(k):
                return mk("param", t.a[0][:-len(k)] or "_"), k
    return None


def scorer_fields(ctx, f):
    out = {}
    if f.cls is None:
        return out
    for n in ("__cinit__", "__init__"):
        g = f.cls.methods.get(n)
        if g is not None:
            for p in NV.run(ctx, g, f.cls)[1]:
                for ev in p.events:
                    if ev.kind == "set":
                        out[ev.d[1]] = ev.d[2]
    return out


def factors(t):
    t = uncast(M.ident(t))
    if t.op == "bin" and t.a[0] == "*":
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def contributions(ctx, f, p, accs, sites):
    fields = scorer_fields(ctx, f)
    name = f.qual
    loops = []
    for ev in p.events:
        if ev.kind == "iter":
            loops.append(ev.d[0])
        elif ev.kind == "loopend":
            if ev.d[0] in loops:
                loops = loops[:loops.index(ev.d[0])]
        if ev.kind != "call" or not isinstance(ev.d[0], str) or not ev.d[0].startswith("method:"):
            continue
        k = is_acc(ev.d[1][0], accs, f)
        if not k or ev.d[0][7:] != accs[k].get("add") or len(ev.d[1][1]) != 2:
            continue
        for s in loops:
            sites.setdefault(s, ev)
        steps = api.path_steps(p.events)
        ctx.obligation("contributions", name)
        i, v = uncast(M.ident(ev.d[1][1][0])), ev.d[1][1][1]
        if i.op != "sub" or array_of(i.a[0], fields) is None:
            if i.op == "lv":
                ctx.violation("contributions", name + ":index", "contributions are added at positions instead of items", ev.where, steps)
            else:
                ctx.saw("not_understood", "%s: adds to %s" % (name, str(i)[:60]))
            continue
        A, kind = array_of(i.a[0], fields)
        if kind != "indices":
            ctx.violation("contributions", name + ":index", "contributions are added to items taken from %s" % kind, ev.where, steps)
            continue
        pos = uncast(i.a[1])
        vals = [(x, array_of(x.a[0], fields)) for x in factors(v) if x.op == "sub"]
        mine = [(x, a) for x, a in vals if a and a[0] is A]
        rest = [(x, a) for x, a in vals if a and a[0] is not A]
        if any(x.op != "sub" and not is_const(x) or x.op == "sub" and array_of(x.a[0], fields) is None for x in factors(v)):
            ctx.saw("not_understood", "%s: adds %s" % (name, str(v)[:80]))
            continue
        if len(mine) != 1 or mine[0][1][1] != "data" or NV.diff(uncast(mine[0][0].a[1]), pos):
            ctx.violation("contributions", name + ":value", "the value added for an item is not the value stored with it: %s" % str(v)[:80], ev.where, steps)
            continue
        if len(rest) != 1 or rest[0][1][1] != "data":
            ctx.violation("contributions", name + ":weight", "contributions are not weighted by the entry they come from: %s" % str(v)[:80], ev.where, steps)
            continue
        r = row(pos, A, fields)
        if r is None:
            ctx.saw("not_understood", "%s: entries %s" % (name, str(pos)[:60]))
            continue
        if isinstance(r, str):
            ctx.violation("contributions", name + ":row", "contributions come from %s" % r, ev.where, steps)
            continue
        r = uncast(M.ident(r))
        B, w = rest[0][1][0], uncast(rest[0][0].a[1])
        b = array_of(r.a[0], fields) if r.op == "sub" else None
        if b is None:
            if r.op == "lv":
                ctx.violation("contributions", name + ":row", "positions are used as rows", ev.where, steps)
            continue
        if b[1] != "indices" or b[0] is not B or NV.diff(uncast(r.a[1]), w):
            ctx.violation("contributions", name + ":weight", "the weight of a row does not belong to it: row %s, weight %s" % (str(r)[:60], str(rest[0][0])[:60]), ev.where, steps)
            continue
        r2 = row(w, B, fields)
        if isinstance(r2, str):
            ctx.violation("contributions", name + ":row", "contributions come from %s" % r2, ev.where, steps)


def row(pos, A, fields):
    """the row of A whose entries a position runs over; text when it is not exactly one row"""
    lv = NV.single_lv(pos)
    if lv is None or not isinstance(lv.a[2], T):
        return None
    lo, hi = lv.a[2], lv.a[3]
    if NV.diff(pos, lv):
        return "an offset of the entries of a row"
    out = []
    for x in (lo, hi):
        d = NV.linear(uncast(x))
        core = [y for y in d if y != 1]
        if len(core) != 1 or d[core[0]] != 1:
            return None
        c = uncast(M.ident(core[0]))
        if c.op != "sub" or array_of(c.a[0], fields) is None:
            return None
        m, kind = array_of(c.a[0], fields)
        if kind != "indptr" or m is not A:
            return "rows delimited by %s" % str(c)[:60]
        if d.get(1, 0):
            return "a row with %+d entries at one end" % d[1]
        out.append(c.a[1])
    d = NV.diff(out[1], out[0])
    if d != {1: 1}:
        return "%s rows instead of one" % d.get(1, 0) if set(d) <= {1} else None
    if is_const(lv.a[4]) and cval(lv.a[4]) != 1:
        return "every %s-th entry of a row" % cval(lv.a[4])
    return out[0]


def skipped(ctx, f, p, accs, sites):
    """an iteration of a loop that adds contributions, without one"""
    open_, name = [], f.qual
    for ev in p.events:
        if ev.kind == "iter" and ev.d[0] in sites:
            open_.append([ev.d[0], False])
        elif ev.kind == "loopend" and ev.d[0] in sites:
            while open_ and open_[-1][0] != ev.d[0]:
                open_.pop()
            if open_:
                s, got = open_.pop()
                if len(ev.d) > 1 and ev.d[1] == "break" and p.kind == "ret":
                    ctx.violation("contributions", name + ":stop", "the entries of a row are left before its end", ev.where, api.path_steps(p.events))
                    return
                if not got and not zero_fact(p) and p.kind == "ret":
                    ctx.violation("contributions", name + ":skip", "an entry contributes nothing on this path", ev.where, api.path_steps(p.events))
                    return
        elif ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:"):
            k = is_acc(ev.d[1][0], accs, f)
            if k and ev.d[0][7:] == accs[k].get("add"):
                for o in open_:
                    o[1] = True


def zero_fact(p):
    return any(op == "==" and number(b) == 0 for a, op, b in statements(p))


def output(ctx, f, p, e, node, accs):
    """consecutive results go to consecutive positions, index with its own score"""
    name = f.qual
    sid = next((i for i, n in e._sites.values() if n is node), None)
    steps = api.path_steps(p.events)
    stores, it = {}, None
    for ev in p.events:
        if ev.kind == "iter" and ev.d[0] == sid:
            it = ev.d[1]
        elif ev.kind == "loopend" and ev.d[0] == sid:
            it = None
        if it is not None and ev.kind == "mut" and ev.d[1] == "setitem":
            stores.setdefault(base_of(ev.d[0]), {}).setdefault(it, []).append(ev)
    comps = {}
    for arr, by in stores.items():
        for it, evs in by.items():
            for ev in evs:
                v = uncast(M.ident(ev.d[3]))
                if v.op == "attr" and v.a[1] in ("first", "second"):
                    comps.setdefault(arr, set()).add(v.a[1])
        if 0 in by and 1 in by:
            ctx.obligation("output", name)
            d = NV.diff(by[1][-1].d[2], by[0][-1].d[2])
            if d != {1: 1} and set(d) <= {1}:
                ctx.violation("output", name + ":position", "consecutive results are stored %s positions apart" % d.get(1, 0), by[1][-1].where, steps)
                return
    idxs = {it: {tuple(sorted((str(k), c) for k, c in NV.linear(ev.d[2]).items())) for by in stores.values() for ev in by.get(it, ())} for it in (0, 1)}
    for it, s in idxs.items():
        if len(s) > 1:
            ctx.violation("output", name + ":pairing", "the index and the score of a result are stored at different positions", where(f), steps)
            return
    # what is returned
    v = M.ident(p.value)
    if v.op in ("call", "alloc") and v.a[0].startswith("scipy.sparse.") and v.a[1]:
        a = M.ident(v.a[1][0])
        if a.op == "tuple" and len(a.a[0]) == 2 and M.ident(a.a[0][1]).op == "tuple":
            want = [(a.a[0][0], "first", "values")] + [(x, w, n) for x, w, n in zip(M.ident(a.a[0][1]).a[0], (None, "second"), ("rows", "columns"))]
            for x, w, n in want:
                c = comps.get(base_of(x), set())
                if w is not None and c and w not in c:
                    ctx.violation("output", "%s:%s" % (name, n), "the %s of the result hold the %s of the entries" % (n, "scores" if "first" in c else "items"), where(f), steps)
                if w is None and c:
                    ctx.violation("output", "%s:%s" % (name, n), "the rows of the result hold neighbours", where(f), steps)
    elif v.op == "tuple" and len(v.a[0]) == 2:
        for x, w, n in zip(v.a[0], ("second", "first"), ("ids", "scores")):
            c = comps.get(base_of(x), set())
            if c and w not in c:
                ctx.violation("output", "%s:%s" % (name, n), "the %s returned hold the %s of the entries" % (n, "scores" if "first" in c else "items"), where(f), steps)


def base_of(t):
    t = M.ident(t)
    while t.op in ("inpl", "upd"):
        t = M.ident(t.a[0])
    return t
