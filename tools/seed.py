#!/usr/bin/env python3
"""Development aid: confirm a planted bug in a scratch copy and keep it under /verif/seeded/<id>.

tools/seed.py FILE.py...   each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python source
A bug is kept only when it applies, builds, passes the stable tests, and the demo exits 0 without and non-zero with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive")
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$PYTHONPATH" PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$d/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def build(d):
    # same as /opt/vp/build.sh but in the scratch copy
    return sh("bash -c '. /opt/vp/common.sh; SRC=%s; BUILD=%s/_skbuild/vp/cmake-build; STAMPS=%s/_skbuild/vp/sources.json; "
              "rm -rf %s/_skbuild; build_extensions' > /dev/null 2>&1 && echo built" % (d, d, d, d), d)


def main():
    base = json.load(open("/opt/vp/BASELINE.json"))
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        out = os.path.join(HERE, "seeded", s["ID"])
        d = tempfile.mkdtemp(prefix="seed-")
        try:
            w = os.path.join(d, "repo")
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            for f, old, new in s["EDITS"]:
                p = os.path.join(w, f)
                t = open(p).read()
                assert t.count(old) >= 1, "edit does not apply: %s %r" % (f, old[:60])
                open(p, "w").write(t.replace(old, new, 1))
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip())
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            diff = sh("git diff", w).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            demo = "bash %s/demo.sh" % out
            r0 = sh(demo, "/repo", timeout=300)
            if any(f.endswith((".pyx", ".h", ".pxd")) for f, _, _ in s["EDITS"]):
                b = build(w)
                if "built" not in b.stdout:
                    print("build failed", b.stdout[-800:], b.stderr[-800:])
            r1 = sh(demo, w, timeout=300)
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 tests 2>&1 | tail -4", w)
            ok = r0.returncode == 0 and r1.returncode != 0 and "1 failed, 229 passed" in t.stdout
            print("%s %s clean=%d bug=%d tests=%s" % ("KEPT" if ok else "REJECTED", s["ID"], r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1][:80]))
            if not ok:
                print((r0.stdout + r0.stderr)[-500:] if r0.returncode else "", (r1.stdout + r1.stderr)[-300:], t.stdout[-600:] if "229 passed" not in t.stdout else "")
                shutil.rmtree(out)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
