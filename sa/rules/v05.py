import os
from .. import ir
from ..ir import Broken, short
from ..paths import *
from ..verif import c_entry, py_entry

def func(tu, pred, keep):
    M = ir.view_if(tu, lambda f, m, d: pred(short(d).split("[")[0], d) and ")::" not in d, lambda f, m, d: keep(short(d).split("[")[0], d))
    fs = [f for f in M.funcs.values() if pred(short(f.dem).split("[")[0], f.dem) and ")::" not in f.dem]
    if len(fs) != 1: raise Broken("%d definitions of the function expected in %s" % (len(fs), tu))
    return fs[0]

def successes(PT, ok=0):
    """(path, return event) of the paths that can return the success code"""
    for p in PT.done:
        r = p.events[-1][2]
        if r is None: yield p; continue
        if r[0] == "k":
            if r[1] == ok: yield p
            continue
        if r[0] in ("zext", "sext") and r[2] == 1:
            for q, t in PT.decide(p, r[1]):
                if t == bool(ok): yield q
            continue
        t = ("icmp", "eq", r, ("k", ok), 32)
        for q, tr in PT.decide(p, t):
            if tr: yield q

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen.add(id(x)); yield x
        st.extend(x)

def is_zero_ret(p, callee):
    """calls of `callee` on the path whose result is known to be 0: list of (inst, args, ins)"""
    out = []
    for e in p.events:
        if e[0] != "call" or short(e[1].dem) != callee: continue
        t = p.env.get(e[1].i)
        if t is None: continue
        lo, hi, ne = p.rng.get(t, (-1, 1, ()))
        if lo == hi == 0: out.append(e)
    return out

def square_known(p, rel, X):
    """is X certainly a perfect square on the path?"""
    for t, (lo, hi, ne) in p.rng.items():
        if t[0] in ("call", "ret") and ("perfect_square_p" in str(t[1]) or "perfect_square_p" in str(t[2])) and (0 in ne or lo > 0 or hi < 0):
            if X in t or any(X == y[1] for y in subterms(t) if y and y[0] == "limbs"): return True
    return holds(rel, "eq", ("sqrtrem", 1, X), pk(0)) or holds(rel, "eq", padd(X, pmul(("sqrt", 0, X), ("sqrt", 0, X)), -1), pk(0)) or holds(rel, "eq", X, pmul(("sqrt", 0, X), ("sqrt", 0, X)))

DIVQ = ("fdiv_q", "tdiv_q", "cdiv_q", "divexact")
def run(R):
    R.rule("V05.element", "every form DeserializeForm returns was decoded successfully, has a > 0, satisfies b^2 - 4ac = D exactly and was found reduced", floor=4)
    R.rule("V05.reencode", "bqfc_deserialize succeeds only for 100 bytes whose decoded coefficients re-encode to the same bytes, or for a one-byte identity/generator encoding", floor=2)
    R.rule("V05.decompress", "decompression succeeds only with a nonzero modulus, an invertible t and a perfect square under the root", floor=2)
    R.rule("V05.decompress-zero", "a zero t yields exactly (a, a)", floor=1)
    R.rule("V05.header", "the decoder accepts a header only if the common factor's size leaves room for the other fields", floor=1)
    R.rule("V05.route", "outside the decoder, forms are made from caller bytes only through DeserializeForm (or, in the hardware client, through bqfc_deserialize with its result examined)", floor=4)
    element(R); reencode(R); decompress(R); header(R); routes(R)

def element(R):
    for tu in ("c_wrapper", "fastvdf", "vdf_client"):
        f = func(tu, lambda n, d: n == "DeserializeForm", lambda n, d: n in ("bqfc_deserialize", "reduce"))
        PT = Paths(f, sigs={"bqfc_deserialize": "ooinnnn", "reduce": "bbb"})
        R.saw("functions", f.dem[:100]); R.saw("paths", "%s %s: %d paths" % (tu, f.short, len(PT.done)))
        w = "%s:%d" % (ir.rel(f.file), f.line); n = 0
        D = ("in", ("a", 1), 0); prob = set()
        for p in PT.done:
            if p.events[-1][0] != "ret": continue
            n += 1; rel = relations(p)
            A, B, C = (p.mem.get((("a", 0), o)) for o in (0, 16, 32))
            ds = is_zero_ret(p, "bqfc_deserialize")
            if None in (A, B, C): prob.add("a form with unset coefficients is returned"); continue
            base = (A, B, C)
            if all(t[0] == "reduce" for t in base) and [t[1] for t in base] == [0, 1, 2] and A[2:] == B[2:] == C[2:]: base = A[2:5]
            a, b, c = base
            okd = [e for e in ds if a[0] == "bqfc_deserialize" and b[0] == "bqfc_deserialize" and a[1] == 0 and b[1] == 1 and a[2:] == b[2:] and a[2] == D and list(a[2:]) == e[3]]
            if not okd: prob.add("the coefficients do not come from a decoding whose success was tested"); continue
            e = okd[-1]
            if e[2][3] != ("ptr", ("a", 2), 0) or e[2][4] != ("a", 3): prob.add("other bytes than the caller's are decoded")
            nb = e[2][5]
            if not any(x[:2] == ("call", "sizeinbase") and x[2] == D and x[3] == ("k", 2) for x in subterms(nb)): prob.add("the discriminant size handed to the decoder is not the discriminant's")
            if len(e[2]) < 7 or e[2][6] != ("a", 4): prob.add("the caller's strictness is not handed to the decoder")
            if not holds(rel, "gt", a, pk(0)): prob.add("a form is returned without a > 0 having been tested")
            N = padd(pmul(b, b), D, -1); M = pmul(pk(4), a)
            if not (c[0] in DIVQ and c[2] == N and c[3] == M): prob.add("the third coefficient is not (b^2 - D) / 4a")
            if not any(holds(rel, "eq", (q, k, N, M), pk(0)) for q in ("fdiv_r", "tdiv_r", "cdiv_r") for k in (0, 1)) and not divisible(p, N, M): prob.add("a form is returned without the division by 4a having been tested to be exact")
            if not ((holds(rel, "lt", A, C) or holds(rel, "eq", A, C) and holds(rel, "ge", B, pk(0)) or holds(rel, "le", A, C) and holds(rel, "ge", B, pk(0)))
                    and (holds(rel, "gt", ("abs", A), ("abs", B)) or holds(rel, "eq", A, B))): prob.add("a form is returned without having been found reduced")
        if not n: raise Broken("DeserializeForm never returns")
        for q in sorted(prob): R.bad("V05.element", w, "%s (%s)" % (q, tu), key=q)
        if not prob:
            for q in ("decoded", "positive a", "equation", "reduced"): R.ok("V05.element", "%s DeserializeForm: %s on all %d returning paths" % (tu, q, n))

def divisible(p, N, M):
    return any(t[:2] == ("call", "divisible_p") and t[2:4] == (N, M) and (0 in ne or lo > 0 or hi < 0) for t, (lo, hi, ne) in p.rng.items())

BQ = ("bqfc_decompr", "bqfc_serialize", "bqfc_deserialize_only")
def reencode(R):
    f = func("bqfc", lambda n, d: n == "bqfc_deserialize", lambda n, d: n in BQ)
    PT = Paths(f, sigs={"bqfc_decompr": "ooinn", "bqfc_serialize": "Wiin"})
    R.saw("functions", f.dem); w = "%s:%d" % (ir.rel(f.file), f.line); n = {"special": 0, "canonical": 0}
    a0, b0, D, STR, SIZE, BITS = (("a", k) for k in range(6)); STRICT = ("a", 6)
    prob = set()
    for p in successes(PT):
        A, B = PT.mget(p, (a0, 0)), PT.mget(p, (b0, 0))
        lo, hi, ne = p.rng.get(SIZE, (0, 1 << 62, ()))
        if not (lo == hi == 100): prob.add("success without the size having been tested to be 100")
        ka, kb = kval(A), kval(B)
        if ka is not None or kb is not None:
            n["special"] += 1
            if (ka, kb) not in ((1, 1), (2, 1)): prob.add("a special encoding decodes to other coefficients than identity (1,1) or generator (2,1)")
            byte = ("ld", ("in", STR, 0), "i8")
            fl = [(m, z) for t, (l, h, nn) in p.rng.items() for m, z in [flagbits(t, byte, l, h, nn)] if m]
            if not any(z is True and m & ~12 == 0 for m, z in fl): prob.add("a special form is returned although the special flags are not set")
            gen = [z for m, z in fl if m == 8]
            if ka == 2 and True not in gen or ka == 1 and False not in gen and (4, True) not in fl: prob.add("identity and generator flag are not told apart")
            continue
        n["canonical"] += 1
        do = is_zero_ret(p, "bqfc_deserialize_only"); de = is_zero_ret(p, "bqfc_decompr"); se = is_zero_ret(p, "bqfc_serialize")
        if not do or do[-1][2][1:3] != [("ptr", STR, 0), BITS]: prob.add("the header is not parsed successfully from the caller's bytes")
        if not de: prob.add("success without a successful decompression"); continue
        d = de[-1]
        if d[2][0:2] != [("ptr", a0, 0), ("ptr", b0, 0)] or d[3][0] != ("in", D, 0): prob.add("decompression does not run on the caller's coefficients and discriminant")
        if do and d[2][3] != do[-1][2][0]: prob.add("decompression uses another structure than the one parsed")
        if strip(d[2][4]) != STRICT: prob.add("the caller's strictness does not reach decompression")
        if not se: prob.add("success although re-encoding failed or was not done"); continue
        s = se[-1]
        if s[3][:2] != [A, B] : prob.add("other coefficients are re-encoded than are returned")
        if s[2][3] != BITS: prob.add("re-encoding uses another discriminant size")
        buf = s[2][0]
        cmpd = False
        for e in p.events:
            if e[0] == "call" and e[1].callee in ("memcmp", "bcmp"):
                lo, hi, ne = p.rng.get(p.env.get(e[1].i), (-1, 1, ()))
                x = set(map(repr, e[2][:2]))
                if lo == hi == 0 and x == {repr(buf), repr(("ptr", STR, 0))} and e[2][2] == ("k", 100): cmpd = True
        if not cmpd: prob.add("success although the re-encoded bytes were not found equal to all 100 input bytes")
    if not n["canonical"]: raise Broken("bqfc_deserialize has no decoding path")
    for q in sorted(prob): R.bad("V05.reencode", w, "bqfc_deserialize: " + q, key=q)
    if not prob:
        for k, v in n.items(): R.ok("V05.reencode", "%d %s success paths" % (v, k))

def strip(t):
    while t[0] in ("zext", "sext", "trunc", "freeze"): t = t[1]
    return t
def flagbits(t, byte, lo, hi, ne):
    """(mask, nonzero?) when t is the input byte masked"""
    x = strip(t)
    if x[0] == "and":
        m = [y for y in (x[1], x[2]) if y[0] == "k"]; v = [y for y in (x[1], x[2]) if y[0] != "k"]
        if m and v and strip(v[0]) == byte:
            if lo == hi == 0: return m[0][1], False
            if 0 in ne or lo > 0 or hi < 0: return m[0][1], True
    return 0, None

def decompress(R):
    f = func("bqfc", lambda n, d: n == "bqfc_decompr", lambda n, d: False)
    PT = Paths(f); R.saw("functions", f.dem); R.saw("paths", "bqfc_decompr: %d paths" % len(PT.done))
    w = "%s:%d" % (ir.rel(f.file), f.line)
    C = ("a", 3); ca, ct, cg, cb = (("in", C, o) for o in cfields(f)); D = ("in", ("a", 2), 0)
    prob = set(); zprob = set(); n = z = 0
    for p in successes(PT):
        rel = relations(p); A, B = PT.mget(p, (("a", 0), 0)), PT.mget(p, (("a", 1), 0))
        if holds(rel, "eq", ct, pk(0)):
            z += 1
            if (A, B) != (ca, ca): zprob.add("a zero t does not decode to (a, a)")
            continue
        n += 1
        if not holds(rel, "ne", ca, pk(0)): prob.add("success without the modulus having been tested to be nonzero")
        sub = list(subterms(B))
        roots = [x for x in sub if len(x) > 2 and x[0] in ("sqrt", "sqrtrem") and x[1] == 0]
        inv = [x for x in sub if len(x) > 2 and (x[0] == "gcdext" and x[1] in (1, 2) or x[0] == "invert")]
        if not roots: prob.add("b is not computed from a square root")
        if not inv: prob.add("b is not computed with an inverse of t")
        for x in roots:
            if not square_known(p, rel, x[2]): prob.add("success without the number under the root having been tested to be a perfect square")
            if not all(any(y == k for y in subterms(x[2])) for k in (ct, D, ca)): prob.add("the number under the root is not t^2 D mod a")
        for x in inv:
            if x[0] == "gcdext":
                T, M = x[2], x[3]
                if not holds(rel, "eq", ("gcdext", 0, T, M), pk(1)): prob.add("success without t having been tested to be invertible")
            else:
                T, M = x[2], x[3]
                if not any(t[:2] == ("call", "invert") and t[2:4] == (T, M) and (0 in ne or lo > 0) for t, (lo, hi, ne) in p.rng.items()): prob.add("success without t having been tested to be invertible")
            if not ({T, M} <= {ct, padd(ct, ca), ca, ("fdiv_r", 0, ct, ca)} and ca in (T, M) and T != M): prob.add("the inverse is not that of t modulo a")
    if not n: raise Broken("bqfc_decompr never succeeds")
    for q in sorted(prob): R.bad("V05.decompress", w, "bqfc_decompr: " + q, key=q)
    if not prob: R.ok("V05.decompress", "conditions on all %d success paths with t != 0" % n); R.ok("V05.decompress", "perfect square and inverse operands")
    for q in sorted(zprob): R.bad("V05.decompress-zero", w, "bqfc_decompr: " + q, key=q)
    if not zprob and z: R.ok("V05.decompress-zero", "%d paths" % z)

def cfields(f):
    """offsets of a, t, g, b0 in struct qfb_c"""
    st = next((v for k, v in f.mod.structs.items() if k == "qfb_c"), None)
    if not st: raise Broken("struct qfb_c not found")
    o = {m["name"]: m["off"] for m in st["members"]}
    try: return [o[k] for k in ("a", "t", "g", "b0")]
    except KeyError: raise Broken("struct qfb_c has other fields")

def header(R):
    f = func("bqfc", lambda n, d: n == "bqfc_deserialize_only", lambda n, d: False)
    from ..lin import Lin, K, A
    L = Lin(f, lambda i, m: None); R.saw("functions", f.dem)
    imps = [i for i in f.calls() if i.callee == "__gmpz_import"]
    R.check("V05.header", len(imps) >= 4, "%s:%d" % (ir.rel(f.file), f.line), "the decoder does not import four fields", inst="four fields", key="fields")
    for i in imps:
        # the widths are unsigned differences: they stay in range only behind the header test
        n = L.u(i.args[1])
        ok = n.const() is not None or L.prove(K(100) - n, i.bb)
        R.check("V05.header", ok, i.where(), "a field width computed from the header is not bounded before the field is read", inst="field @%s" % i.where(), key="field width unbounded")

def routes(R):
    allowed = {"DeserializeForm": "V05.element"}
    n = 0
    for tu in ("c_wrapper", "fastvdf", "vdf_client", "hw_proof"):
        M = ir.view(tu, allf=True, inline=False, passes=ir.SSA_ONLY)
        for f in M.funcs.values():
            for i in f.calls():
                c = short(i.dem)
                if c not in ("bqfc_deserialize", "bqfc_deserialize_only", "bqfc_decompr"): continue
                own = f.short.split("[")[0]
                if os.path.basename(f.file or "") == "bqfc.c": continue
                if c == "bqfc_deserialize" and own == "DeserializeForm": R.ok("V05.route", "%s: DeserializeForm" % tu); continue
                examined = c == "bqfc_deserialize" and gated(f, i)
                R.check("V05.route", examined, i.where(), "%s decodes a form without going through DeserializeForm and without acting on a failed decoding" % own, inst="%s: %s examines the result of %s" % (tu, own, c), key="%s in %s" % (c, own))

def gated(f, i):
    """a failed call cannot reach a normal return of the function without passing a branch on its result that leads to a throw or to another return value"""
    us = f.users.get(("v", i.i), [])
    for u in us:
        if u.op == "icmp": 
            for b in f.users.get(("v", u.i), []):
                if b.op == "br": return True
        if u.op == "ret" or u.op == "store" or u.op == "phi": return True
    return False
