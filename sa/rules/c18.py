"""C18: a cached dataset is complete once it has its cache name, one and the same file is looked up, downloaded and read, and readers find every field where the generators put it."""
from .. import api
from .. import model as M
from ..project import AnalysisBroken
from ..terms import NONE, T, const, cval, is_const, kids, mk, walk
from .c07 import where

MINIMUM = {"readers": 2}
READERS = {"implicit.datasets.lastfm.get_lastfm": "lastfm", "implicit.datasets.movielens.get_movielens": "movielens",
           "implicit.datasets.million_song_dataset.get_msd_taste_profile": "msd", "implicit.datasets.reddit.get_reddit": "reddit",
           "implicit.datasets.sketchfab.get_sketchfab": "sketchfab"}
DOWNLOAD = "implicit.datasets._download.download_file"
FETCH = ("urllib.request.urlretrieve", "urllib.urlretrieve", "wget.download")
RENAME = ("os.replace", "os.rename")
COPY = ("shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copyfileobj")
EXISTS = ("os.path.isfile", "os.path.exists")


def check(ctx):
    proj = ctx.proj
    ctx.rule("atomic", "a download is written under another name and moved to the cache name only after it has finished")
    ctx.rule("same-file", "a reader opens the file it looked for, and downloads to that name whenever it was not there")
    ctx.rule("url", "the file downloaded is the one of the dataset and variant asked for")
    ctx.rule("fields", "every field a reader takes from the file is written by the generator under the same name")
    ctx.rule("matrix", "the arrays a reader builds its matrix from are the same arrays, of one matrix in the same format, that the generator stored")
    ctx.rule("names", "the names a reader returns for the rows and columns of its matrix are those the generator numbered rows and columns by")
    f = proj.find_func(DOWNLOAD)
    if f is None:
        raise AnalysisBroken(DOWNLOAD + " not found")
    download(ctx, f)
    for q in READERS:
        g = proj.find_func(q)
        if g is None:
            raise AnalysisBroken(q + " not found")
        w = proj.find_func(q.rsplit(".", 1)[0] + ".generate_dataset")
        if w is None:
            raise AnalysisBroken(q.rsplit(".", 1)[0] + ".generate_dataset not found")
        dataset(ctx, g, w)


# -- strings and paths

def text(t):
    """flattened concatenation: list of strings and terms"""
    t = M.ident(t)
    if is_const(t):
        return [str(cval(t))]
    if t.op == "fstr":
        out = []
        for x in t.a[0]:
            out += text(x) if isinstance(x, T) else [str(x)]
        return merge(out)
    if t.op == "bin" and t.a[0] == "+":
        return merge(text(t.a[1]) + text(t.a[2]))
    if t.op == "bin" and t.a[0] == "%" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        parts = cval(t.a[1]).split("%s")
        vals = list(t.a[2].a[0]) if t.a[2].op == "tuple" else [t.a[2]]
        if len(parts) == len(vals) + 1:
            out = [parts[0]]
            for v, s in zip(vals, parts[1:]):
                out += text(v) + [s]
            return merge(out)
    if t.op == "meth" and t.a[1] == "format" and is_const(t.a[0]) and not t.a[3]:
        parts = cval(t.a[0]).split("{}")
        if len(parts) == len(t.a[2]) + 1:
            out = [parts[0]]
            for v, s in zip(t.a[2], parts[1:]):
                out += text(v) + [s]
            return merge(out)
    if t.op in ("call", "alloc") and t.a[0] == "builtins.str" and t.a[1]:
        return text(t.a[1][0])
    return [t]


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def path(t):
    """(directory components, base name) of a file name, both as tuples; base None when unknown"""
    t = M.ident(t)
    while t.op in ("call", "alloc") and t.a[0] in ("os.path.abspath", "os.path.normpath", "os.path.realpath", "os.fspath", "builtins.str", "pathlib.Path") and len(t.a[1]) == 1:
        t = M.ident(t.a[1][0])
    if t.op in ("call", "alloc") and t.a[0] == "os.path.basename" and t.a[1]:
        return (), path(t.a[1][0])[1]
    if t.op in ("call", "alloc") and t.a[0] == "os.path.dirname" and t.a[1]:
        d = path(t.a[1][0])[0]
        if d:
            return d[:-1], d[-1]
    if t.op in ("call", "alloc") and t.a[0] in ("os.path.join", "pathlib.Path") and t.a[1]:
        d = ()
        for x in t.a[1][:-1]:
            p = path(x)
            d += p[0] + (p[1],)
        p = path(t.a[1][-1])
        return d + p[0], p[1]
    if t.op == "bin" and t.a[0] == "/":
        a, b = path(t.a[1]), path(t.a[2])
        return a[0] + (a[1],) + b[0], b[1]
    xs = text(t)
    if len(xs) > 1 and isinstance(xs[0], T) and isinstance(xs[1], str):
        head = path(xs[0]) if not is_const(xs[0]) else None
        if head is not None and (head[0] or head[1] != (xs[0],)):
            rest = merge(list(head[1]) + xs[1:])
            return head[0], tuple(rest)
    if all(isinstance(x, str) for x in xs[-1:]) and "/" in xs[-1]:
        s = xs[-1].rsplit("/", 1)
        return (tuple(merge(xs[:-1] + [s[0]])),), (s[1],)
    for i in range(len(xs) - 1, -1, -1):
        if isinstance(xs[i], str) and "/" in xs[i]:
            a, b = xs[i].rsplit("/", 1)
            return (tuple(merge(xs[:i] + [a])),), tuple(merge([b] + xs[i + 1:]))
    return (), tuple(xs)


SIMPLE = {"param", "glob", "const", "fstr", "bin"}


def known(p):
    def ok(x):
        if isinstance(x, (str, tuple)):
            return isinstance(x, str) or all(ok(y) for y in x)
        return x.op in ("param", "glob") or x.op in ("call", "alloc") and x.a[0] in ("os.path.expanduser", "os.path.dirname", "tempfile.gettempdir", "tempfile.mkdtemp", "os.getcwd")
    return all(ok(x) for x in p[0]) and ok(p[1])


def label(p):
    def s(x):
        return x if isinstance(x, str) else "".join(map(s, x)) if isinstance(x, tuple) else "{%s}" % str(x)[:40]
    return s(p[1])


def same(a, b):
    """True / False / None when unknown"""
    pa, pb = path(a), path(b)
    if pa == pb:
        return True
    return False if known(pa) and known(pb) else None


def arg(ev, i, *names):
    """argument of a call to an outside function"""
    d = ev.d[1]
    args, kws = (d[-2], d[-1]) if len(d) in (2, 3) else ((), ())
    kw = dict(kws)
    for n in names:
        if n in kw:
            return kw[n]
    return args[i] if i < len(args) else None


# -- download

def writes(ev):
    """(how, file written) of a call that creates a file"""
    if ev.kind != "call" or not isinstance(ev.d[0], str):
        return None
    q = ev.d[0]
    if q in FETCH:
        return "fetch", arg(ev, 1, "filename", "out")
    if q in ("builtins.open", "io.open"):
        m = arg(ev, 1, "mode")
        if m is not None and is_const(m) and any(c in str(cval(m)) for c in "wax+"):
            return "open", arg(ev, 0, "file")
    if q in COPY[:3]:
        return "copy", arg(ev, 1, "dst")
    if q in RENAME:
        return "rename", arg(ev, 1, "dst")
    if q == "shutil.move":
        return "move", arg(ev, 1, "dst")
    return None


def download(ctx, f):
    ctx.saw("downloads", f.qual)
    e, paths = api.run(ctx, f, None)
    names = [a for a in f.params]
    final = mk("param", "local_filename") if "local_filename" in names else mk("param", names[1]) if len(names) > 1 else None
    if final is None:
        ctx.saw("not_understood", f.qual + ": parameters")
        return
    for p in paths:
        fetching(ctx, f, p, final, p.kind == "ret")


def fetching(ctx, f, p, final, must):
    name = f.qual
    steps = api.path_steps(p.events)
    ctx.obligation("atomic", name)
    done, there, opened, tries, handler = [], False, {}, [], 0
    for ev in p.events:
        if ev.kind == "try":
            tries.append((ev.d[0], len(done)))
        if ev.kind in ("endtry", "finally", "except") and ev.kind == "finally":
            for sid, n in tries:
                if sid == ev.d[0]:
                    # what was downloaded inside the try block may be incomplete here
                    done[n:] = [(how, x, False) for how, x, ok in done[n:]]
        if ev.kind == "endwith":
            for how, x, ok in list(done):
                if how == "open" and any(y is M.ident(ev.d[0]) for y in opened.get(x, ())):
                    done.remove((how, x, ok))
                    done.append((how, x, True))
        w = writes(ev)
        if w is None or w[1] is None:
            continue
        how, dst = w
        to_final = same(dst, final)
        if how in ("fetch", "open", "copy"):
            if to_final:
                ctx.violation("atomic", name + ":" + how, "the file is written under its final name while it is incomplete", ev.where, steps)
                there = True
            elif to_final is None:
                ctx.saw("not_understood", "%s: writes %s" % (name, str(dst)[:60]))
            done.append((how, dst, how != "open"))
            if how == "open":
                opened.setdefault(dst, []).append(M.ident(ev.d[2]))
            continue
        src = arg(ev, 0, "src")
        if to_final is False:
            continue
        if src is not None and same(src, final):
            ctx.violation("atomic", name + ":rename", "the file is moved away from its final name instead of to it", ev.where, steps)
            continue
        if src is None:
            continue
        if to_final:
            there = True
        hit = [d for d in done if d[1] is src or same(d[1], src)]
        if not hit:
            if done and all(same(d[1], src) is False for d in done) or not done:
                ctx.violation("atomic", name + ":unfinished", "%s is moved to the final name although nothing was downloaded to it%s" % (str(src)[:60], " on this path" if not done else ""), ev.where, steps)
            else:
                ctx.saw("not_understood", "%s: moves %s" % (name, str(src)[:60]))
        elif not hit[-1][2]:
            ctx.violation("atomic", name + ":unfinished", "the file is moved to its final name even if the download did not finish", ev.where, steps)
        if how == "move":
            d = path(src)[0]
            if any(x.op in ("call", "alloc") and x.a[0].startswith("tempfile.") for y in d for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, T)) and not any(x is final for x in walk(src)):
                ctx.violation("atomic", name + ":move", "the file is copied to its final name when the temporary directory is on another file system", ev.where, steps)
    if must and p.kind == "ret" and not there:
        if done and all(same(d[1], final) is False for d in done) and not any(writes(ev) and writes(ev)[1] is not None and same(writes(ev)[1], final) is None for ev in p.events):
            ctx.violation("atomic", name + ":lost", "the downloaded file never gets its final name", where(f), steps)
        elif not done:
            ctx.violation("atomic", name + ":nothing", "returns without having downloaded anything", where(f), steps)


# -- readers and generators

def fields_of(t, mode=None):
    """path of a value inside a hdf5 file: (file call term, tuple of names) or None"""
    t = M.ident(t)
    if t.op == "enter":
        t = M.ident(t.a[0])
    if t.op in ("call", "alloc") and t.a[0] == "h5py.File":
        return t, ()
    if t.op == "meth" and t.a[1] in ("get", "create_group", "require_group", "create_dataset", "require_dataset", "__getitem__") and t.a[2]:
        b = fields_of(t.a[0])
        return b and (b[0], b[1] + key(t.a[2][0]))
    if t.op == "meth" and t.a[1] in ("create_dataset", "require_dataset", "create_group") and dict(t.a[3]).get("name") is not None:
        b = fields_of(t.a[0])
        return b and (b[0], b[1] + key(dict(t.a[3])["name"]))
    if t.op == "sub" and not (is_const(t.a[1]) and not isinstance(cval(t.a[1]), str)) and t.a[1].op not in ("slice", "tuple"):
        b = fields_of(t.a[0])
        return b and (b[0], b[1] + key(t.a[1]))
    return None


def key(t):
    t = M.ident(t)
    if is_const(t) and isinstance(cval(t), str):
        return tuple(x for x in cval(t).split("/") if x)
    xs = text(t)
    if all(isinstance(x, str) for x in xs):
        return tuple(x for x in "".join(xs).split("/") if x)
    return (None,)


def file_mode(t):
    m = dict(t.a[2]).get("mode") or (t.a[1][1] if len(t.a[1]) > 1 else None)
    return cval(m) if m is not None and is_const(m) else None if m is not None else "r"


def all_terms(p):
    seen = set()
    if isinstance(p.value, T):
        yield from walk(p.value, seen)
    for ev in p.events:
        st = list(ev.d)
        while st:
            x = st.pop()
            if isinstance(x, T):
                yield from walk(x, seen)
            elif isinstance(x, tuple):
                st.extend(x)
    for k in p.st.facts:
        yield from walk(k, seen)


def dataset(ctx, g, w):
    ctx.saw("readers", g.qual)
    ctx.saw("generators", w.qual)
    e, paths = api.run(ctx, g, None, opaque={DOWNLOAD})
    rd, cache = [], set()
    for p in paths:
        c = lookup(ctx, g, p)
        if c is not None:
            cache.add(path(c))
        if p.kind == "ret":
            rd.append((p, read_fields(p)))
    if not rd:
        raise AnalysisBroken(g.qual + " never returns")
    e2, wp = api.run(ctx, w, None)
    wr = []
    for p in wp:
        if p.kind == "ret":
            wr.append((p, written(ctx, w, p)))
    for p, (fs, mats) in rd:
        for q, ws in wr:
            match(ctx, g, w, p, fs, mats, q, ws, cache)


def opens(p):
    return [ev for ev in p.events if ev.kind == "call" and ev.d[0] == "h5py.File"]


def lookup(ctx, g, p):
    """existence test, download and opening agree; returns the cache file"""
    name = g.qual
    steps = api.path_steps(p.events)
    got = None
    fetched = []
    exists = []
    for k, v in p.st.facts.items():
        t, want = k, v
        if k.op == "truth":
            t = M.ident(k.a[0])
        if t.op in ("call", "alloc") and t.a[0] in EXISTS and t.a[1]:
            exists.append((t.a[1][0], v))
        elif t.op == "meth" and t.a[1] in ("is_file", "exists"):
            exists.append((t.a[0], v))
        elif t.op in ("call", "alloc") and t.a[0] == "os.path.isdir":
            exists.append((None, v))
    for ev in p.events:
        if ev.kind != "call" or not isinstance(ev.d[0], str):
            continue
        if ev.d[0] == DOWNLOAD:
            b = dict(ev.d[1])
            dst, url = b.get("local_filename"), b.get("url")
            ctx.obligation("url", name)
            fetched.append(dst)
            if dst is not None and url is not None:
                base, src = path(dst), path(url)
                if known(base) and known(src) and base[1] != src[1]:
                    ctx.violation("url", name, "%s is downloaded as %s" % (label(src), label(base)), ev.where, steps)
                elif not (known(base) and known(src)):
                    ctx.saw("not_understood", "%s: url %s" % (name, str(url)[:60]))
            continue
        wr = writes(ev)
        if wr is not None and wr[1] is not None:
            if wr[0] in ("fetch", "open", "copy"):
                fin = opens(p)
                if any(same(wr[1], o.d[1][0][0]) for o in fin if o.d[1][0]):
                    ctx.violation("atomic", name, "the file is written under its cache name while it is incomplete", ev.where, steps)
            else:
                fetched.append(wr[1])
        if ev.d[0] == "h5py.File":
            target = arg(ev, 0, "name")
            if target is None:
                continue
            got = target
            ctx.obligation("same-file", name)
            m = file_mode(ev.d[2]) if ev.d[2].op in ("call", "alloc") else "r"
            if m is not None and m[:1] in ("w", "x"):
                ctx.violation("same-file", name + ":mode", "the cached file is opened with mode %r, which discards it" % m, ev.where, steps)
            down = [same(x, target) for x in fetched if x is not None]
            have = [(same(x, target) if x is not None else False) for x, v in exists if v is True]
            if True in down or True in have:
                if True not in have and any(d is False for d in down):
                    pass
                continue
            if None in down or None in have:
                ctx.saw("not_understood", "%s: opens %s" % (name, str(target)[:60]))
            elif down:
                ctx.violation("same-file", name, "the file opened (%s) is not the file downloaded (%s)" % (label(path(target)), label(path(fetched[-1]))), ev.where, steps)
            elif have:
                ctx.violation("same-file", name, "the file opened (%s) is not the file that was looked for" % label(path(target)), ev.where, steps)
            else:
                ctx.violation("same-file", name, "the file is opened although it was neither found nor downloaded", ev.where, steps)
    # a file that was looked for and not found is downloaded to the name it was looked for under
    for x, v in exists:
        if v is False and x is not None and got is not None and fetched:
            s = [same(x, y) for y in fetched if y is not None]
            if s and all(z is False for z in s):
                ctx.violation("same-file", name + ":lookup", "looked for %s but downloaded to %s" % (label(path(x)), label(path(fetched[-1]))), where(g), steps)
    return got


def read_fields(p):
    """fields read: {names: term}; matrices built: [(term, [names of data, indices, indptr])]"""
    fs, mats = {}, []
    for t in all_terms(p):
        r = fields_of(t)
        if r is not None and r[1]:
            if t.op == "meth" and t.a[1] == "get" and len(t.a[2]) > 1:
                continue
            fs[r[1]] = t
        if t.op in ("call", "alloc") and t.a[0] in ("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix") and t.a[1]:
            x = M.ident(t.a[1][0])
            if x.op == "tuple" and len(x.a[0]) == 3:
                parts = [field_behind(y) for y in x.a[0]]
                if all(q is not None for q in parts):
                    mats.append((t, parts))
    return fs, mats


def field_behind(t):
    """the hdf5 field whose contents a value is"""
    while True:
        t = M.ident(t)
        r = fields_of(t)
        if r is not None and r[1]:
            return r[1]
        if t.op in ("call", "alloc") and t.a[1] and isinstance(t.a[1][0], T):
            t = t.a[1][0]
        elif t.op in ("meth", "attr", "sub"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[-1]
        else:
            return None


def written(ctx, w, p):
    """{names: value or None}, None in names for computed ones"""
    out, files = {}, []
    pend = {}
    for ev in p.events:
        if ev.kind == "call" and ev.d[0] == "h5py.File":
            if ev.d[2].op in ("call", "alloc") and file_mode(ev.d[2]) in ("w", "w-", "x", "a", "r+"):
                files.append((arg(ev, 0, "name"), ev))
        if ev.kind == "call" and isinstance(ev.d[0], str) and ev.d[0].startswith("method:"):
            m = ev.d[0][7:]
            if m not in ("create_group", "require_group", "create_dataset", "require_dataset"):
                continue
            recv, args, kws = ev.d[1]
            b = fields_of(recv)
            if b is None:
                continue
            kw = dict(kws)
            n = args[0] if args else kw.get("name")
            if n is None:
                continue
            names = b[1] + key(n)
            val = kw.get("data") or (args[3] if len(args) > 3 else None)
            if m.endswith("group"):
                out.setdefault(names, ("group", None, ev))
                continue
            shape = kw.get("shape") or (args[1] if len(args) > 1 else None)
            out[names] = ("data", val, ev, shape)
            pend[M.ident(ev.d[2])] = names
        if ev.kind == "mut" and ev.d[1] == "setitem":
            tgt, how, idx, val = ev.d[:4]
            n = pend.get(M.ident(tgt))
            if n is not None:
                out[n] = ("data", val, ev, out[n][3], idx)
                continue
            b = fields_of(tgt)
            if b is not None and isinstance(idx, T) and is_const(idx) and isinstance(cval(idx), str):
                out[b[1] + key(idx)] = ("data", val, ev, None)
            elif b is not None and b[1] and b[1] in out and out[b[1]][0] == "data":
                out[b[1]] = ("data", val, ev, out[b[1]][3], idx)
    return out, files


def match(ctx, g, w, p, fs, mats, q, ws, cache):
    out, files = ws
    name, wname = g.qual, w.qual
    steps = api.path_steps(q.events)
    dynamic = [n[:n.index(None)] for n in out if None in n]
    for fn, ev in files:
        if fn is None:
            continue
        b = path(fn)
        if known(b) and not (len(b[1]) == 1 and not isinstance(b[1][0], str)):
            for c in cache:
                ctx.obligation("same-file", wname)
                if known(c) and c[1] != b[1]:
                    ctx.violation("same-file", wname, "generates %s although the reader looks for %s" % (label(b), label(c)), ev.where, steps)
    if not files:
        ctx.saw("not_understood", wname + ": opens no file for writing")
        return
    for n, t in sorted(fs.items(), key=str):
        if None in n:
            ctx.saw("not_understood", "%s: field %s" % (name, t))
            continue
        ctx.obligation("fields", "%s:%s" % (name, "/".join(n)))
        ctx.saw("fields", "%s:%s" % (name, "/".join(n)))
        if n in out or any(m[:len(n)] == n for m in out) or any(n[:len(d)] == d for d in dynamic):
            d = out.get(n)
            if d is not None and d[0] == "data" and d[1] is None and d[3] is not None:
                ctx.violation("fields", "%s:%s" % (wname, "/".join(n)), "the field %s is created but never filled" % "/".join(n), d[2].where, steps)
            elif d is not None and d[0] == "data" and len(d) > 4:
                filled(ctx, w, n, d, steps)
            continue
        ctx.violation("fields", "%s:%s" % (name, "/".join(n)), "reads the field %s, which %s never writes" % ("/".join(n), wname), where(g), steps)
    # matrices
    for t, parts in mats:
        ctx.obligation("matrix", name)
        vals = [out.get(x) for x in parts]
        if any(v is None or v[0] != "data" or v[1] is None for v in vals):
            continue
        src = []
        for want, v, x in zip(("data", "indices", "indptr"), vals, parts):
            y = M.ident(v[1])
            while y.op in ("call", "alloc") and y.a[0].startswith("numpy.") and y.a[1] or y.op == "meth" and y.a[1] in ("astype", "copy"):
                y = M.ident(y.a[1][0] if y.op != "meth" else y.a[0])
            if y.op != "attr":
                ctx.saw("not_understood", "%s: %s = %s" % (wname, "/".join(x), str(y)[:60]))
                continue
            if y.a[1] in ("data", "indices", "indptr") and y.a[1] != want:
                ctx.violation("matrix", "%s:%s" % (name, "/".join(x)), "%s holds the %s of the matrix but is read as its %s" % ("/".join(x), y.a[1], want), where(g), steps)
            src.append(M.ident(y.a[0]))
        if len(set(src)) > 1:
            ctx.violation("matrix", wname, "the arrays of the stored matrix come from different matrices", vals[0][2].where, steps)
        if not src:
            continue
        fmt = "csr" if t.a[0].endswith("csr_matrix") else "csc"
        x, got = src[0], None
        while x.op == "meth":
            if x.a[1] in ("tocsr", "tocsc") and got is None:
                got = x.a[1][2:]
            if x.a[1] in ("transpose",):
                break
            x = M.ident(x.a[0])
        if x.op in ("call", "alloc") and got is None and x.a[0].startswith("scipy.sparse."):
            got = x.a[0].split(".")[-1][:3]
        if got in ("csr", "csc") and got != fmt:
            ctx.violation("matrix", wname + ":format", "the matrix is stored as %s and read as %s" % (got, fmt), vals[0][2].where, steps)
        orientation(ctx, g, w, p, t, parts, x, out, steps)


def filled(ctx, w, n, d, steps):
    """a field created with a size is filled with a value of that size"""
    kind, val, ev, shape, idx = d
    if shape is None or val is None:
        return
    s = M.ident(shape)
    if s.op == "tuple" and len(s.a[0]) == 1:
        s = M.ident(s.a[0][0])
    if s.op in ("call", "alloc") and s.a[0] == "builtins.len" and s.a[1]:
        a, b = M.base(s.a[1][0]) if hasattr(M, "base") else M.ident(s.a[1][0]), M.ident(val)
        ca, cb = column(a), column(b)
        if ca is not None and cb is not None and ca != cb:
            ctx.violation("fields", "%s:%s:size" % (w.qual, "/".join(n)), "the field %s has the size of %s but is filled with %s" % ("/".join(n), ca, cb), ev.where, steps)
    if isinstance(idx, T) and idx.op == "slice" and any(x is not NONE for x in idx.a):
        ctx.violation("fields", "%s:%s:part" % (w.qual, "/".join(n)), "only part of the field %s is filled" % "/".join(n), ev.where, steps)


def column(t):
    """name of the data frame column a value is made from"""
    for _ in range(40):
        if t.op not in ("inpl", "upd"):
            t = M.ident(t)
        if t.op == "sub" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
            return cval(t.a[1])
        if t.op == "attr" and frame(t.a[0]):
            return t.a[1]
        if t.op in ("attr", "meth", "sub"):
            t = M.ident(t.a[0])
        elif t.op == "cast":
            t = M.ident(t.a[-1])
        elif t.op in ("inpl", "upd"):
            idx = t.a[2] if t.op == "inpl" else t.a[1]
            c = column(idx) if isinstance(idx, T) else None
            if c is not None:
                return c
            t = M.ident(t.a[0])
        elif t.op in ("call", "alloc") and t.a[1] and isinstance(t.a[1][0], T) and not frame(t):
            t = M.ident(t.a[1][0])
        else:
            return None
    return None


def whole_frame(t):
    """a column as it was read, not reindexed or sorted"""
    return not any(x.op == "meth" or x.op == "attr" and x.a[1] in ("loc", "iloc") or x.op == "sub" and not is_const(x.a[1]) for x in walk(t))


def frame(t):
    t = M.ident(t)
    while t.op in ("upd", "inpl"):
        t = M.ident(t.a[0])
    return t.op in ("call", "alloc") and t.a[0].startswith("pandas.read_")


def orientation(ctx, g, w, p, mat, parts, x, out, steps):
    """x: the coordinate matrix the generator built"""
    if not (x.op in ("call", "alloc") and x.a[0].startswith("scipy.sparse.") and x.a[1]):
        ctx.saw("not_understood", "%s: stores %s" % (w.qual, str(x)[:60]))
        return
    a = M.ident(x.a[1][0])
    if not (a.op == "tuple" and len(a.a[0]) == 2 and M.ident(a.a[0][1]).op == "tuple" and len(M.ident(a.a[0][1]).a[0]) == 2):
        return
    rc = [column(y) for y in M.ident(a.a[0][1]).a[0]]
    if None in rc:
        ctx.saw("not_understood", "%s: rows and columns %s" % (w.qual, rc))
        return
    ctx.obligation("names", g.qual)
    if rc[0] == rc[1]:
        ctx.violation("names", w.qual, "rows and columns of the matrix are both numbered by %s" % rc[0], where(w), steps)
        return
    coded = [any(z.op == "attr" and z.a[1] == "codes" for z in walk(y)) for y in M.ident(a.a[0][1]).a[0]]
    for n, d in out.items():
        if d[0] != "data" or d[1] is None:
            continue
        c = column(d[1])
        if c in rc and coded[rc.index(c)]:
            ctx.obligation("names", "%s:%s" % (w.qual, "/".join(map(str, n))))
            ts = list(walk(d[1]))
            if any(z.op == "meth" and z.a[1] in ("unique", "drop_duplicates") or z.op in ("call", "alloc") and z.a[0] in ("builtins.set", "pandas.unique") for z in ts) \
                    and not any(z.op == "attr" and z.a[1] in ("categories", "codes") for z in ts):
                ctx.violation("names", "%s:%s" % (w.qual, "/".join(map(str, n))), "the names of %s are stored in the order they appear, but the matrix is numbered by category codes" % c, d[2].where, steps)
    # names kept at the position of the number used in the matrix
    for n, d in out.items():
        if d[0] != "data" or d[1] is None:
            continue
        for z in walk(d[1]):
            if z.op != "upd" or z.a[1].op != "slice":
                continue
            v, b = column(z.a[2]), M.ident(z.a[0])
            sized_by = {column(y) for y in walk(b) if y.op == "attr" or y.op == "sub"} & set(rc)
            if v is not None and v not in rc and sized_by and not any(coded[rc.index(c)] for c in sized_by) and whole_frame(z.a[2]):
                ctx.violation("names", "%s:%s" % (w.qual, "/".join(map(str, n))), "the names are stored in the order they are listed, but the matrix is numbered by %s" % sorted(sized_by)[0],
                              d[2].where, steps)
    # names returned with the matrix: rows first, then columns
    v = M.ident(p.value)
    others = []
    turned = False
    if v.op == "tuple":
        for y in v.a[0]:
            if any(z is mat for z in walk(y)):
                turned = any(z.op == "attr" and z.a[1] == "T" or z.op == "meth" and z.a[1] == "transpose" for z in walk(y))
            else:
                n = field_behind(y)
                others.append((n, column(out[n][1]) if n in out and out[n][0] == "data" and out[n][1] is not None else None))
    if turned:
        rc = rc[::-1]
    for (n, c), want, side in zip(others, rc, ("rows", "columns")):
        if c is not None and c != want and c in rc:
            ctx.violation("names", "%s:%s" % (g.qual, side), "returns the names of %s for the %s of the matrix, which are numbered by %s" % (c, side, want), where(g), steps)
    # the matrix is called <row>_<column>_<value>
    grp = parts[0][:-1]
    if grp and isinstance(grp[-1], str) and not turned:
        words = grp[-1].split("_")
        is_word = lambda w, c: w.lower() in (c.lower(), c.lower()[:-2] if c.lower().endswith("id") else None)
        if len(words) >= 2 and is_word(words[0], rc[1]) and is_word(words[1], rc[0]) and not is_word(words[0], rc[0]):
            ctx.violation("names", "%s:%s" % (w.qual, grp[-1]), "%s has %s as rows and %s as columns" % (grp[-1], rc[0], rc[1]), where(w), steps)
