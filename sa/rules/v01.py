from ..nweso import *
from ..ir import Broken
from .. import ir
from . import v01_leaf

def ret_sites(V, spec):
    """(where, atoms certain when the answer is positive, inst) of every way to answer positively"""
    f = V.f; out = []
    if spec.kind in ("n", "single"):
        for i in f.all():
            if i.op == "ret" and i.bb in V.M.R and V.M.IN[i.bb] is not None:
                c = const(i.ops[0])
                if c == 0: continue
                at = V.M.at(i)
                im = V.M.implied(i.ops[0], True, i.bb) if c is None else frozenset()
                if im is None: continue
                out.append((i, at | im))
    elif spec.kind == "b":
        # the boolean first component of the returned pair reaches make_tuple by reference
        for i in f.calls():
            if "make_tuple<" not in i.dem: continue
            b = i.args[1]
            out.append((i, pair_true(V, b, i)))
    return out

def pair_true(V, addr, use):
    """atoms certain when the byte behind addr is non-zero just before `use` (reaching stores / pair constructors)"""
    st = V.T.at(use); t = V.T.get(st, addr)
    return flag_atoms(V, t, use.bb, set())

def pair_terms(V, t, seen):
    if t[0] == "phi":
        if t in seen: return []
        seen.add(t)
        return [q for p, x in V.T.phi_inputs(t).items() if V.M.edge_out(p, t[1]) is not None for q in pair_terms(V, x, seen)]
    return [t] if t[0] == "Pair" else []

def flag_atoms(V, t, at, seen):
    if t[0] == "val":
        c = const(t[1])
        if c is not None: return None if c == 0 else frozenset()
        return V.M.implied(t[1], True, at)
    if t[0] == "phi":
        if t in seen: return None
        seen.add(t)
        res = None
        for p, x in V.T.phi_inputs(t).items():
            eo = V.M.edge_out(p, t[1])
            if eo is None: continue
            a = flag_atoms(V, x, p, seen)
            if a is None: continue
            from ..bools import U, meet
            res = meet(res, U(a, eo))
        if res is not None: res = frozenset(x for x in res if not V.M.stale(x[0], t[1], at))
        return res
    if t[0] == "Pair": return flag_atoms(V, t[1], at, seen)
    return frozenset()

def run(R):
    R.rule("V01.final", "a positive answer is only given after the equation over the final segment (input, output and proof from the right places of the caller's data) compared equal", floor=5)
    R.rule("V01.segment", "the loop proceeds to the next segment only after the segment's own equation compared equal, and hands on that equation's output", floor=3)
    R.rule("V01.start", "the first segment's input is the element the caller supplied", floor=5)
    R.rule("V01.cover", "segments are consumed from the end of the blob in steps of one record until the final record; none is skipped", floor=4)
    R.rule("V01.getb", "the reported challenge is derived from the chained input and the claimed output of the final segment")
    for label, V, sp in entries():
        f = V.f; R.saw("entry points", label); R.saw("functions", f.dem[:120])
        eqs = {i: match_equation(a, b) for i, (a, b) in V.eqs().items()}
        final = None
        if sp.kind == "getb":
            final = getb(R, label, V, sp)
        else:
            sites = ret_sites(V, sp)
            if not sites: R.bad("V01.final", f.dem, "%s never answers positively" % label, key=label + " no positive answer")
            for i, atoms in sites:
                if atoms is None: continue
                cand = [a[0] for a in atoms if len(a) == 2 and a[1] is True and eqs.get(a[0])]
                good = None; why = "no Wesolowski equation is certain to have compared equal"
                for c in cand:
                    w = final_ok(V, eqs[c], sp)
                    if w is None: good = c; break
                    why = w
                R.check("V01.final", good is not None, i.where(), "%s can answer 'valid' although %s" % (label, why),
                        inst="%s: %s" % (label, V.f.insts[good].where() if good else ""), key=label + ": " + why)
                if good is not None and sp.kind == "b":
                    bad = [t for t in pair_terms(V, V.T.get(V.T.at(i), i.args[1]), set()) if not (t[1] == ("val", ("c", "0", 8)))
                           and not (t[2][0] == "Ser" and V.canon(t[2][1]) == eqs[good]["y"])]
                    R.check("V01.final", not bad, i.where(), "%s returns bytes that are not the serialised output of the equation checked" % label, inst=label + " result bytes", key=label + " result bytes")
                if good is not None: final = eqs[good]; fin_inst = V.f.insts[good]
        if final is None: continue
        chain(R, label, V, sp, final, eqs, None if sp.kind == "getb" else fin_inst)
    v01_leaf.run(R)

def final_ok(V, m, sp):
    z = K(0)
    if sp.kind == "single":
        if not deser_at(V, m["x"], m["D"], sp.x, z): return "the input element is not the caller's"
        if not deser_at(V, m["y"], m["D"], sp.y, z): return "the output element is not the caller's"
        if not deser_at(V, m["proof"], m["D"], sp.proof, z): return "the proof element is not the caller's"
        if m["T"] != ("e", ((((("U", ("a", sp.total))), 1),), 0)): return "the exponent is not the claimed iteration count"
        return None
    if sp.kind == "n":
        if not deser_at(V, m["y"], m["D"], sp.blob, z): return "the final output compared is not the first form of the blob"
        if not deser_at(V, m["proof"], m["D"], sp.blob, K(FORM)): return "the final proof element is not the second form of the blob"
    if sp.kind == "b":
        if m["B"] != ("Ctor", "integer", sp.b[1]): return "the challenge compared is not the caller's B"
        if not deser_at(V, m["proof"], m["D"], sp.blob, z): return "the final proof element is not the first form of the blob"
    return None

def getb(R, label, V, sp):
    """returned string = ToStr(GetB(D, x, Deser(blob)))"""
    res = None
    for i in V.f.calls():
        if short(i.dem).startswith("integer::to_string"):
            t = V.canon(V.T.get(V.T.at(i), i.args[1] if len(i.args) > 1 else i.args[0]))
            ok = t[0] == "GetB" and deser_at(V, t[3], t[1], sp.blob, K(0))
            R.check("V01.getb", ok, i.where(), "%s returns something else than GetB(D, chained input, claimed output)" % label, inst=label, key=label + " getb")
            if ok: res = dict(D=t[1], x=t[2], inst=i)
    return res

def chain(R, label, V, sp, final, eqs, fin_inst):
    D = final["D"]; x = final["x"]
    if sp.kind == "single":
        R.ok("V01.start", label); return
    h = xchain(V, x)
    if h is None:
        if deser_at(V, x, D, sp.x, K(0)) :
            R.bad("V01.segment", V.f.dem[:60], "%s: the final segment is checked against the caller's input directly: the outputs of the nested segments are not chained into it" % label, key=label + " not chained")
        else: R.bad("V01.segment", V.f.dem[:60], "%s: the final segment's input is not the running output of the segment loop" % label, key=label + " x chain")
        return
    body = V.L.loops[h]; f = V.f
    hw = f.blocks[h].insts[-1].where()
    for p, t in V.T.phi_inputs(x).items():
        eo = V.M.edge_out(p, h)
        if eo is None: continue
        t = V.canon(t)
        if p not in body:
            R.check("V01.start", deser_at(V, t, D, sp.x, K(0)), hw, "%s: the first segment does not start from the caller's input element" % label, inst=label, key=label + " start")
            continue
        # a back edge
        if sp.kind == "getb":
            m = match_mul(t); why = None
            if not m or m["x"] != x or m["D"] != D: why = "the next input is not proof^B * x^(2^T mod B)"
            else: S, why = segment(V, dict(m, y=t), sp)
        else:
            S = None; why = "no segment equation is certain to have compared equal in this iteration"
            for a in eo:
                if len(a) == 2 and a[1] is True and eqs.get(a[0]):
                    m = eqs[a[0]]
                    if m["x"] != x: why = "the equation compared is not over the running input"; continue
                    if m["D"] != D: why = "the equation compared uses another discriminant"; continue
                    S, why = segment(V, m, sp)
                    if why is None and m["y"] != t: why = "the next input is not the output of the equation just compared"
                    if why is None: break
        R.check("V01.segment", why is None, hw, "%s: %s" % (label, why), inst=label, key=label + ": " + str(why))
        if why is None: cover(R, label, V, sp, S, h, body, fin_inst or final["inst"])

def length(V, sp):
    k, a = sp.bloblen
    return A(("U", ("a", a))) if k == "arg" else A(("C", "size", ("init", (("a", a), 0)), 62))

def cover(R, label, V, sp, S, h, body, fin):
    ln = length(V, sp); N = A(("N", h))
    want = ln - K(SEG) - N.mul(SEG)
    where = V.f.blocks[h].insts[-1].where()
    if (S.o - want).const() != 0:
        R.bad("V01.cover", where, "%s: segment records are not consumed contiguously from the end of the blob (offset %s, expected %s)" % (label, S.o, want), key=label + " order")
        return
    base = FORM if sp.kind == "b" else 2 * FORM
    # when the final equation is reached, everything above `base` has been consumed: len - 141*N <= base
    rest = ln - N.mul(SEG)
    R.check("V01.cover", V.L.prove(K(base) - rest, fin.bb), fin.where(), "%s: the final segment can be reached while nested segments are still unchecked" % label, inst=label + " all consumed", key=label + " early exit")
