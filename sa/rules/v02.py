from ..nweso import *
from ..bools import const

def run(R):
    R.rule("V02.start", "the remaining iteration count starts as the caller's claimed total", floor=4)
    R.rule("V02.subtract", "every processed segment subtracts exactly its own encoded count, provably without wrapping (the guard dominates the subtraction)", floor=4)
    R.rule("V02.final", "the final segment is checked for exactly the remaining count", floor=3)
    R.rule("V02.total", "a call that verifies one segment uses the claimed count itself")
    R.rule("V02.width", "the claimed total and the segment counts are 64-bit on every step", floor=4)
    for label, V, sp in entries():
        f = V.f; R.saw("entry points", label); R.saw("functions", f.dem[:120])
        tot = A(("U", ("a", sp.total)))
        eqs = {i: match_equation(a, b) for i, (a, b) in V.eqs().items()}
        R.check("V02.width", f.params[sp.total]["ty"] == "i64", f.dem[:60], "%s takes the iteration count as %s" % (label, f.params[sp.total]["ty"]), inst=label, key=label + " width")
        if sp.kind == "single":
            ms = [m for m in eqs.values() if m]
            R.check("V02.total", ms and all(m["T"] == ("e", tot.key()) for m in ms), f.dem[:60], "%s checks the equation for another count than the claimed one" % label, inst=label, key=label + " total")
            continue
        # equations (or, without checks, products) of nested segments and of the final one
        nested, final = [], []
        for i, m in eqs.items():
            if not m: continue
            S, why = segment(V, m, sp)
            (nested if S.o is not None else final).append((i, m, S))
        hs = [h for h in V.L.loops]
        phis = []
        for h in hs:
            for i in f.blocks[h].insts:
                if i.op != "phi" or i.ty != "i64": continue
                ent = [v for v, p in f.phi_inc(i) if p not in V.L.loops[h]]
                if ent and all(V.L.u(v).key() == tot.key() for v in ent): phis.append((h, i))
        if not phis:
            R.bad("V02.start", f.dem[:60], "%s: no remaining-count variable starts from the claimed total" % label, key=label + " start"); continue
        good = None
        for h, ph in phis:
            atom = A(("U", ("v", ph.i)))
            lat = [(v, p) for v, p in f.phi_inc(ph) if p in V.L.loops[h] and V.M.IN.get(p) is not None]
            probs = []
            for v, p in lat:
                e = V.L.u(v); d = atom - e
                a = next(iter(d.t)) if len(d.t) == 1 and d.c == 0 else None
                be = a is not None and d.t[a] == 1 and isinstance(a, tuple) and a[0] == "C" and a[1] == "BE64"
                if not be: probs.append("the remaining count is not reduced by the segment's count (provably without wrap) on every way to the next segment")
                else:
                    # the same count that entered this segment's equation
                    used = [S for _, m, S in nested if m["T"] == ("e", A(a).key())]
                    if sp.kind != "getb" and not used: probs.append("the count subtracted is not the one the segment's equation was checked for")
                    if sp.kind == "getb":
                        ok = any(t[0] == "PowMod" and V.canon(t)[2] == ("e", A(a).key()) for t in allterms(V, "PowMod"))
                        if not ok: probs.append("the count subtracted is not the one used in the segment's product")
            if good is None or len(probs) < len(good[2]): good = (h, ph, probs)
        h, ph, probs = good
        R.ok("V02.start", label)
        R.check("V02.subtract", not probs, ph.where() if ph.loc else f.blocks[h].insts[-1].where(), "%s: %s" % (label, probs[0] if probs else ""), inst=label, key=label + ": " + (probs[0] if probs else ""))
        if sp.kind != "getb":
            want = ("e", A(("U", ("v", ph.i))).key())
            R.check("V02.final", final and all(m["T"] == want for _, m, _ in final), f.insts[final[0][0]].where() if final else f.dem[:60],
                    "%s: the final segment is not checked for the remaining count" % label, inst=label, key=label + " final count")

def allterms(V, tag):
    out = set()
    def walk(t):
        if not isinstance(t, tuple): return
        if t and t[0] == tag: out.add(t)
        for x in t: walk(x)
    for st in V.T.ev.values():
        for t in st.values(): walk(t)
    return out
