"""Writes seen along a path, attributed to the objects whose memory they can reach (used by C01 and C02)."""
from . import model as M
from .terms import NONE, mk, is_const, cval


def chain(t):
    """object path of a term: attr(attr(self, model), item_factors) -> (self, ['model', 'item_factors'])"""
    names = []
    t = M.ident(t)
    while t.op == "attr":
        names.append(t.a[1])
        t = M.ident(t.a[0])
    return t, list(reversed(names))


def aliased(e, t, st, alias_methods=()):
    """roots of t, seeing through methods of other objects known to hand out their own memory and through element access"""
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for r in M.roots(e, x, st):
            if r in seen and r is not x:
                continue
            out.add(r)
            if r.op == "meth" and r.a[1] in alias_methods:
                out.add(mk("attr", M.ident(r.a[0]), r.a[1] + "()"))
                todo.append(r.a[0])
            elif r.op == "sub" and r.a[0].op in ("meth",) and r.a[0].a[1] in alias_methods:
                todo.append(r.a[0])
            elif r.op == "call" and r.a[0] == "builtins.getattr" and r.a[1]:
                if len(r.a[1]) > 1 and is_const(r.a[1][1]):
                    todo.append(mk("attr", M.ident(r.a[1][0]), cval(r.a[1][1])))
    return out


def writes(e, p, alias_methods=()):
    """-> [(event, object, attribute path, description, value)] for every write on the path; object is a param/self/new/... term"""
    out = []
    for i, ev in enumerate(p.events):
        if ev.kind == "set":
            o, names = chain(ev[0])
            out.append((i, ev, o, names + [ev[1]], "assigns", ev[2]))
        elif ev.kind == "setdyn":
            o, names = chain(ev[0])
            out.append((i, ev, o, names + ["?"], "assigns", ev[2]))
        elif ev.kind == "mut":
            if ev[1] in ("append", "extend") and M.ident(ev[0]).op == "list":
                continue
            for r in aliased(e, ev[0], p.st, alias_methods):
                o, names = chain(r)
                if o.op in ("self", "param") or (o.op == "class"):
                    out.append((i, ev, o, names, "modifies in place (%s)" % ev[1].lstrip("."), ev[3] if len(ev.d) > 3 else NONE))
        elif ev.kind == "free":
            o, names = chain(ev[0])
            if names and o.op in ("self", "param"):
                out.append((i, ev, o, names, "deletes", NONE))
    return out
