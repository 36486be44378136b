#!/usr/bin/env python3
"""Development aid: apply textual mutants to a scratch copy of the sources and run one property's rule on it.

tools/mut.py CXX [name...]    mutants of that property must be reported
tools/mut.py --refactor CXX   behaviour-keeping edits must stay quiet
--new: only the second set of behaviour-keeping edits
--blind, --blind2: the second and third sets, written from the properties' text alone
Not used by any registered check.
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"


def one(args):
    prop, name, edits = args
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.path.join(REPO, "implicit"), os.path.join(d, "implicit"), ignore=shutil.ignore_patterns("*.so", "*.cpp", "__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "implicit", f)
            s = open(p).read()
            if old not in s:
                return prop, name, "STALE " + f + ": " + old[:50], ""
            open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=os.path.join(d, "out"))
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(HERE), "check.py"), prop], env=env, capture_output=True, text=True)
        return prop, name, r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    ref = "--refactor" in a
    verbose = "-v" in a
    a = [x for x in a if not x.startswith("-")]
    import mutants
    import refactors2
    if "--new" in sys.argv:
        mutants.REFACTORS = refactors2.REFACTORS
    else:
        mutants.REFACTORS.update(refactors2.REFACTORS)
    blind = [x for x in ("--blind", "--blind2", "--blind3") if x in sys.argv]
    if blind:
        import mutants_blind
        import mutants_blind2
        import mutants_blind3
        mutants.MUTANTS = {"--blind": mutants_blind.BLIND, "--blind2": mutants_blind2.BLIND2, "--blind3": mutants_blind3.BLIND3}[blind[0]]
        props_all = list(mutants.MUTANTS)
    props = [x for x in a if x[0] == "C" and x[1:].isdigit()]
    names = [x for x in a if x not in props]
    if blind and not props:
        props = props_all
    jobs = []
    if ref:
        for n, edits in mutants.REFACTORS.items():
            if names and n not in names:
                continue
            for p in props:
                jobs.append((p, n, edits))
    else:
        for p in props:
            for n, edits in mutants.MUTANTS.get(p, {}).items():
                if names and n not in names:
                    continue
                jobs.append((p, n, edits))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for p, n, rc, out in ex.map(one, jobs):
            ok = rc == (0 if ref else 1)
            bad += not ok
            last = [l for l in out.splitlines() if not l.startswith("VIOLATION")]
            print("%-4s %s %-40s rc=%s %s" % ("ok" if ok else "BAD", p, n, rc, (last[0][:150] if last and (rc != 0 or verbose) else "")))
            if verbose and not ok:
                print(out[-2000:])
    print("%d jobs, %d bad" % (len(jobs), bad))


if __name__ == "__main__":
    main()
