#!/usr/bin/env python3
"""check.py PROPERTY... [--tier quick|thorough]: decide properties from the current source of the repository.

exit 0: the property held on everything analysed; exit 1: VIOLATION line printed; exit 2: the analysis cannot decide
(an anchor it relies on has vanished or the source could not be parsed).
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def need_cython():
    try:
        import Cython  # noqa: F401
    except ImportError:
        alt = "/opt/venv/bin/python"
        if os.path.exists(alt) and os.path.abspath(sys.executable) != alt and not os.environ.get("VERIF_REEXEC"):
            os.environ["VERIF_REEXEC"] = "1"
            os.execv(alt, [alt] + sys.argv)


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k["key"]: k for k in json.load(f).get("findings", [])}


def run(prop, tier):
    from sa.project import AnalysisBroken, Project
    from sa.report import Ctx, write_evidence, write_replay
    ctx = Ctx(prop, None, tier)
    err = None
    try:
        ctx.proj = Project()
        mod = importlib.import_module("sa.rules." + prop.lower())
        mod.check(ctx)
        for what, least in getattr(mod, "MINIMUM", {}).items():
            have = ctx.counts.get(what, len(ctx.constructs.get(what, ())))
            if have < least:
                raise AnalysisBroken("%s: only %d instances, expected at least %d" % (what, have, least))
    except AnalysisBroken as e:
        err = str(e)
    except SyntaxError as e:
        err = "cannot parse: %s" % e
    except Exception:  # noqa
        err = traceback.format_exc()
    kn = known()
    new = [v for v in ctx.violations if ctx.key(v) not in kn]
    old = [v for v in ctx.violations if ctx.key(v) in kn]
    write_evidence(ctx, "other", new, old, err)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[ctx.key(v)].get("what", v["message"])))
    for v in new:
        p = write_replay(ctx, v)
        print("%s: %s [%s] %s" % (v["where"] or "?", v["construct"], v["rule"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if new:
        return 1
    if err:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, err))
        return 2
    print("OK property=%s functions=%d paths=%d obligations=%d %.1fs" % (
        prop, len(ctx.constructs.get("functions", ())), ctx.counts.get("paths", 0), ctx.counts.get("obligations", 0), time.time() - ctx.t0))
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    props = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            props.append(a)
    if "--selftest" in argv:
        from sa.project import Project
        n = len(Project().modules)
        print("analysis loads: %d modules" % n)
        return 0 if n > 20 else 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rcs = [run(p, tier) for p in props]
    return 1 if 1 in rcs else max(rcs, default=0)


if __name__ == "__main__":
    need_cython()
    sys.exit(main(sys.argv[1:]))
