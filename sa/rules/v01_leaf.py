"""Contracts of the algebra-layer functions the acceptance rules build on."""
from .. import ir
from ..ir import Broken, short
from ..verif import *
from ..bools import U, meet
from ..bytesem import Bytes, UNROLL

def leaf(tu, name, sig=None, keep=keep_algebra, passes=None):
    M = ir.view_if(tu, lambda f, m, d: short(d).split("[")[0] == name and (sig is None or sig in d), keep, passes=passes)
    fs = [f for f in M.funcs.values() if short(f.dem).split("[")[0] == name]
    if len(fs) != 1: raise Broken("%s: %d definitions" % (name, len(fs)))
    return fs[0]

def rets(V): return [i for i in V.f.all() if i.op == "ret" and i.bb in V.M.R and V.M.IN[i.bb] is not None]

def run(R, tu="c_wrapper", full=True):
    R.rule("V01.leaf", "the algebra-layer functions of the equation have their contract: power, challenge derivation, equality, byte decoding", floor=8)
    def ok(cond, f, what): R.check("V01.leaf", cond, "%s:%d" % (ir.rel(f.file), f.line), what, inst=f.dem[:80] + ": " + what, key=f.short + " " + what); R.saw("functions", f.dem[:120])

    # FastPow(a, b, c) = a^b mod c
    f = leaf(tu, "FastPow"); V = View(f)
    want = ("PowM", ("Ctor", "integer", ("e", (((("U", ("a", 1)), 1),), 0))), ("e", (((("U", ("a", 2)), 1),), 0)), ("init", (("a", 3), 0)))
    ts = [norm_pow(V.canon(V.T.get(V.T.at(i), ("a", 0)))) for i in rets(V)]
    ok(ts and all(t == want for t in ts), f, "FastPow returns a^b mod c")

    # GetB(D, x, y) = HashPrime(Ser(x) || Ser(y), 264, {263})
    f = leaf(tu, "GetB"); V = View(f)
    nb = lambda t: t[0] == "val" and f.inst(t[1]) is not None and V.T.callres.get(t[1][1], ("",))[0] == "NumBits" and V.T.callres[t[1][1]][1] == ("init", (("a", 1), 0))
    good = True; n = 0
    for i in rets(V):
        t = V.T.get(V.T.at(i), ("a", 0)); n += 1
        good &= (t[0] == "HashPrime" and t[1][0] == "Concat" and t[1][1][0] == "Ser" and t[1][1][1] == ("init", (("a", 2), 0)) and t[1][2][0] == "Ser" and t[1][2][1] == ("init", (("a", 3), 0))
                 and nb(t[1][1][2]) and nb(t[1][2][2]) and const(t[2][1]) == 264 and t[3][0] == "InitList" and [const(x[1]) if x != "?" and x[0] == "val" else None for x in t[3][1:]] == [263])
    ok(good and n, f, "GetB hashes the serialised input followed by the serialised output to a 264-bit prime with its top bit set")

    # HashPrime returns only what passed the primality test
    f = leaf(tu, "HashPrime"); V = View(f)
    good = True; n = 0
    for i in rets(V):
        t = V.T.get(V.T.at(i), ("a", 0)); n += 1
        at = V.M.at(i)
        good &= any(len(a) == 2 and a[1] is True and V.T.callres.get(a[0], ("",))[0] == "Prime" and V.T.callres[a[0]][1] == t for a in at)
    ok(good and n, f, "HashPrime returns a value only after the primality test accepted that value")

    # equality
    f = leaf(tu, "integer::operator=="); V = View(f)
    good = bool(rets(V))
    for i in rets(V):
        at = V.M.implied(i.ops[0], True, i.bb) | V.M.at(i)
        good &= any(len(a) == 2 and a[1] is False and V.T.callres.get(a[0], ("",))[0] == "Cmp" and set(V.T.callres[a[0]][1:]) == {("init", (("a", 0), 0)), ("init", (("a", 1), 0))} for a in at)
    ok(good, f, "integers compare equal only if mpz_cmp says so")
    f = leaf(tu, "form::operator=="); V = View(f)
    good = bool(rets(V))
    for i in rets(V):
        im = V.M.implied(i.ops[0], True, i.bb)
        at = (im if im is not None else frozenset()) | V.M.at(i)
        offs = set()
        for a in at:
            t = V.T.callres.get(a[0], ("",))
            if len(a) == 2 and a[1] is True and t[0] == "Eq" and t[1][0] == "init" and t[2][0] == "init":
                (r1, o1), (r2, o2) = t[1][1], t[2][1]
                if {r1, r2} == {("a", 0), ("a", 1)} and o1 == o2: offs.add(o1)
        good &= {0, 16} <= offs
    ok(good, f, "forms compare equal only if their a and b coefficients are equal")

    # byte decoding
    f = leaf(tu, "BytesToInt64", passes=UNROLL); B = Bytes(f)
    rv = [i for i in f.all() if i.op == "ret"]
    ok(len(rv) == 1 and B.val(rv[0].ops[0]) == [("m", ("a", 0), 7 - k) for k in range(8)], f, "BytesToInt64 reads a big-endian 64-bit value")
    power(R, tu, ok)
    serial(R, tu, ok)

def uncast(f, v):
    while f.inst(v) is not None and f.inst(v).op in ("sext", "zext", "trunc"): v = f.inst(v).ops[0]
    return v

def norm_pow(t):
    """an exponent given as an integer built from a machine value is that value"""
    if t[0] == "PowM" and t[2][0] == "Ctor" and t[2][1] == "integer": return ("PowM", t[1], t[2][2], t[3])
    return t

def expand(V, t, p, b, seen=()):
    """terms a memory value can have on the edge p->b, each with the branch facts of its path"""
    eo = V.M.edge_out(p, b)
    if eo is None: return []
    if t[0] == "phi" and t not in seen and t[1] not in V.L.loops:
        out = []
        for q, x in V.T.phi_inputs(t).items():
            for y, a in expand(V, x, q, t[1], seen + (t,)):
                out.append((y, U(a, frozenset(z for z in eo))))
        return out
    return [(t, eo)]

def power(R, tu, ok):
    f = leaf(tu, "FastPowFormNucomp"); V = View(f)
    n = ("init", (("a", 3), 0)); x = ("init", (("a", 1), 0)); D = ("init", (("a", 2), 0))
    problems = []
    # the identity is returned exactly for exponent zero; otherwise the loop's running value
    loops = V.L.loops
    hs = [h for h in loops]
    found = None
    for h in hs:
        for (b, k), ins in list(V.T.phis.items()):
            if b != h: continue
            ph = ("phi", h, k)
            back = []
            for p, t in V.T.phi_inputs(ph).items():
                if p in loops[h]: back += expand(V, t, p, h)
            if any(t[0] in ("Sq", "Comp") for t, _ in back): found = (h, k, ph, back)
    if not found: ok(False, f, "square-and-multiply over the exponent bits"); return
    h, k, ph, back = found
    for p, t in V.T.phi_inputs(ph).items():
        if p not in loops[h] and t != x: problems.append("the running value does not start as the base")
    bits = [i for i in f.calls() if V.T.callres.get(i.i, ("",))[0] == "GetBit"]
    N = A(("N", h))
    nbs = [i for i in f.calls() if V.T.callres.get(i.i, ("",)) == ("NumBits", n)]
    for t, at in back:
        bitv = None
        for a in at:
            c = V.T.callres.get(a[0], ("",))
            if len(a) == 2 and c[0] == "GetBit" and c[1] == n:
                bitv = a[1]; idx = V.L.sx(c[2][1])
                if not any((idx - (A(("S", ("v", q.i))) - K(2) - N)).const() == 0 for q in nbs): problems.append("bit index is not num_bits-2 counting down by one")
        sq = ("Sq", ph, D)
        if bitv is False and t == sq: continue
        if bitv is True and t == ("Comp", sq, x, D): continue
        problems.append("an iteration computes neither res^2 (bit clear) nor res^2*x (bit set)")
    if not nbs: problems.append("number of exponent bits not used")
    for i in rets(V):
        t0 = V.T.get(V.T.at(i), ("a", 0))
        alts = [(t0, V.M.at(i))] if t0[0] != "phi" or t0[1] in loops else [z for p, t in V.T.phi_inputs(t0).items() for z in expand(V, t, p, t0[1])]
        for t, at in alts:
            if t[0] == "Identity": continue
            if t != ph: problems.append("returns something else than the running value"); continue
    # all bits consumed at the exit: i < 0
    for b in loops[h]:
        for z in f.blocks[b].succ:
            if z in loops[h] or f.blocks[b].unw == z: continue
            if nbs and V.M.IN.get(z) is not None and not any(V.L.prove(K(1) + N - A(("S", ("v", q.i))), z) for q in nbs): problems.append("the loop can end before the lowest exponent bit")
    ok(not problems, f, "square-and-multiply over the exponent bits" + ("" if not problems else ": " + "; ".join(sorted(set(problems)))))

def serial(R, tu, ok):
    f = leaf(tu, "SerializeForm"); V = View(f)
    good = 0
    for i in f.calls():
        if short(i.dem) != "bqfc_serialize": continue
        a = i.args
        good = f.base_off(a[1]) == (("a", 1), 0) and f.base_off(a[2]) == (("a", 1), 16) and uncast(f, a[3]) == ("a", 2)
        red = [j for j in f.calls() if short(j.dem) in ("form::reduce", "PulmarkReducer::reduce", "Reducer::run") and f.idom_inst(j, i)]
        good = bool(good and red and all(f.dominates(i.bb, r.bb) for r in rets(V)))
    ok(bool(good), f, "SerializeForm encodes the reduced form's a and b with the given size")
