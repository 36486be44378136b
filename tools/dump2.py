"""native dump: python3 tools/dump2.py qualsuffix [maxpaths] -- events, shortened"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.project import Project
from sa.report import Ctx
from sa import native, api
proj = Project(); ctx = Ctx("C99", proj, "quick")
f = next(f for f in proj.all_funcs() if f.qual.endswith(sys.argv[1]))
e, ps = native.run(ctx, f, f.cls, **eval("dict(%s)" % (sys.argv[3] if len(sys.argv) > 3 else "")))
print(len(ps), "paths", "truncated" if e.truncated else "")
for p in ps[: int(sys.argv[2]) if len(sys.argv) > 2 else 1]:
    print("-----", p.kind, str(p.value)[:200])
    for k, v in p.st.facts.items(): print("   fact", str(k)[:150], v)
    for ev in p.events: print("    ", str(ev)[:230])
