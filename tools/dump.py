import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.project import Project
from sa.report import Ctx
from sa import api
from sa.terms import *
proj = Project()
ctx = Ctx("C99", proj, "quick")
def main():
    cq, fn = sys.argv[1:3]
    opts = eval("dict(%s)" % (sys.argv[3] if len(sys.argv) > 3 else ""))
    c = next((c for m in proj.modules.values() for c in m.classes.values() if c.qual.endswith(cq)), None) if cq != "-" else None
    f = proj.method(c, fn) if c else next(f for f in proj.all_funcs() if f.qual.endswith(fn))
    e, ps = api.run(ctx, f, c, **opts)
    for p in ps:
        print("-----", p.kind, {str(k): v for k, v in p.st.facts.items()})
        print("   ", p.value)
        if "-e" in sys.argv:
            for ev in p.events:
                print("        ", ev)
main()
