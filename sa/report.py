"""Collects what a rule analysed and what it found; writes evidence and replay files."""
import hashlib
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, prop, proj, tier):
        self.prop, self.proj, self.tier = prop, proj, tier
        self.violations = []
        self._keys = set()
        self.counts = {}
        self.constructs = {}
        self.assumptions = []
        self.rules = {}
        self.notes = []
        self.t0 = time.time()
        self.engines = []
        self.thorough = tier == "thorough"

    # -- what was looked at
    def rule(self, name, text):
        self.rules.setdefault(name, text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, what, construct):
        self.constructs.setdefault(what, set()).add(construct)

    def obligation(self, rule, construct):
        self.count("obligations")
        self.saw("obligations:" + rule, construct)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    # -- findings
    def violation(self, rule, construct, message, where="", path=None):
        """construct: stable name of the violating construct (used as key, no line numbers)"""
        key = (rule, construct)
        if key in self._keys:
            return
        self._keys.add(key)
        self.violations.append({"rule": rule, "construct": construct, "message": message, "where": where, "path": path or []})

    def key(self, v):
        return "%s:%s:%s" % (self.prop, v["rule"], v["construct"])


def write_replay(ctx, v):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(ctx.key(v).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (ctx.prop, h))
    with open(p, "w") as f:
        json.dump({"property": ctx.prop, "key": ctx.key(v), "rule": v["rule"], "rule_text": ctx.rules.get(v["rule"], ""), "construct": v["construct"],
                   "where": v["where"], "message": v["message"], "path": v["path"],
                   "replay": "%s %s/check.py %s" % ("python3", VERIF, ctx.prop)}, f, indent=1, default=str)
    return p


def write_evidence(ctx, level, new, known, error=None):
    d = OUT
    os.makedirs(d, exist_ok=True)
    cov = {"functions": len(ctx.constructs.get("functions", ())), "paths": ctx.counts.get("paths", 0),
           "obligations": ctx.counts.get("obligations", 0),
           "files": len(ctx.proj.files) if ctx.proj else 0,
           "rules": {k: {"text": t, "instances": sorted(str(x) for x in ctx.constructs.get("obligations:" + k, ()))[:400],
                         "instance_count": len(ctx.constructs.get("obligations:" + k, ()))} for k, t in ctx.rules.items()},
           "analysed": sorted(ctx.constructs.get("functions", ()))[:400],
           "counts": dict(ctx.counts),
           "truncated": sorted(ctx.constructs.get("truncated", ())),
           "unmodelled": sorted(ctx.constructs.get("unmodelled", ())),
           "not_understood": sorted(ctx.constructs.get("not_understood", ()))[:200],
           "known_findings": [ctx.key(v) for v in known],
           "explanation": "Static analysis of the current source tree (nothing is executed): 'functions' are the functions analysed as entry "
                          "points or inlined, 'paths' the abstract paths through them after merging equal states, 'obligations' the "
                          "rule instances decided; each rule lists the constructs it was applied to."}
    if error:
        cov["error"] = error
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 3), "assumptions": ctx.assumptions,
          "violations": len(new)}
    if new:
        cov["violation_list"] = [{"key": ctx.key(v), "where": v["where"], "message": v["message"]} for v in new]
    p = os.path.join(d, ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
