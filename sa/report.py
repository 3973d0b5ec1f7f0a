"""Verdict, evidence and known-findings handling shared by all checks."""
import json, os, sys, time
from .ir import VERIF, Broken

class Report:
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier; s.t0 = time.time()
        s.viol = {}          # key -> text
        s.obl = {}           # rule -> list of instance texts
        s.rules = {}         # rule -> description
        s.analysed = {}      # category -> set
        s.assume = []
    def rule(s, rid, text, floor=1):
        s.rules[rid] = dict(text=text, floor=floor); s.obl.setdefault(rid, [])
    def ok(s, rid, inst):
        """one obligation (rule instance) that was examined and holds"""
        s.obl[rid].append(str(inst))
    def bad(s, rid, where, what, key=None):
        """one violated obligation; key identifies the construct without line numbers"""
        k = "%s|%s" % (rid, key or what)
        if k not in s.viol:
            s.viol[k] = "%s: [%s] %s" % (where, rid, what)
            s.obl[rid].append("VIOLATED " + s.viol[k])
    def check(s, rid, cond, where, what, inst=None, key=None):
        if cond: s.ok(rid, inst or "%s %s" % (where, what))
        else: s.bad(rid, where, what, key)
    def saw(s, cat, item):
        s.analysed.setdefault(cat, set()).add(str(item))
    def assume_(s, t): s.assume.append(t)

    def finish(s, known):
        for rid, r in s.rules.items():
            if len(s.obl[rid]) < r["floor"] and not any(k.startswith(rid + "|") for k in s.viol):
                raise Broken("rule %s matched %d instances, at least %d expected: the anchor is gone or the analysis lost it" % (rid, len(s.obl[rid]), r["floor"]))
        new, listed = [], []
        for k, v in s.viol.items():
            e = next((e for e in known if e["property"] == s.prop and e.get("status") == "known" and e["key"] == k), None)
            (listed if e else new).append((k, v, e))
        nobl = sum(len(v) for v in s.obl.values())
        ev = dict(property=s.prop, tier=s.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(
                      explanation="Static analysis of the current /repo sources (clang 18 IR of the translation units below). "
                      "Each rule was applied to every matching construct; 'obligations' lists how many constructs were examined per rule and 'samples' some of them.",
                      rules={rid: dict(rule=r["text"], instances=len(s.obl[rid]), samples=s.obl[rid][:12 if s.tier == "quick" else 400]) for rid, r in s.rules.items()},
                      obligations=nobl, discharged=nobl - len(s.viol),
                      analysed={c: dict(count=len(v), items=sorted(v)[:60]) for c, v in s.analysed.items()}),
                  assumptions=s.assume, wall_s=round(time.time() - s.t0, 2),
                  violations=[v for _, v, _ in new])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", s.prop + ".json")
        json.dump(ev, open(path, "w"), indent=1)
        for c, v in sorted(s.analysed.items()): print("analysed %s: %d" % (c, len(v)))
        for rid, r in s.rules.items(): print("rule %s: %d instances -- %s" % (rid, len(s.obl[rid]), r["text"]))
        for k, v, e in listed: print("KNOWN-FINDING: property=%s %s" % (s.prop, v))
        for k, v, e in new:
            print("VIOLATED %s" % v); print("  key: %s" % k)
        if new:
            print("VIOLATION property=%s replay=%s" % (s.prop, path))
            return 1
        print("OK property=%s obligations=%d" % (s.prop, nobl))
        return 0

def run(prop, fn, tier):
    kf = os.path.join(VERIF, "known_findings.json")
    known = json.load(open(kf))["findings"] if os.path.exists(kf) else []
    R = Report(prop, tier)
    try:
        fn(R)
        return R.finish(known)
    except Broken as e:
        # violations already established stand on their own even if another rule lost its anchor
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        if R.viol:
            for rid, r in R.rules.items(): r["floor"] = 0
            return R.finish(known) or 3
        return 3
