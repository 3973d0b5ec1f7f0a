from ..nweso import *
from .. import ir
from ..ir import Broken, short
from ..terms import split_params
from ..bools import const, cmpc
from ..flow import *

MAXBITS = 1024
WORK = {"DeserializeForm": "form decoding", "FastPow": "power of two", "FastPowFormNucomp": "form power", "GetB": "challenge derivation", "root": "root",
        "operator*": "form product", "nucomp_form": "composition", "nudupl_form": "squaring", "VerifyWesolowskiProof": "verification", "VerifyWesoSegment": "verification"}

class NView(View):
    def key(s, i, m):
        t = s.T.callres.get(i.i)
        if t is not None and t[0] == "NumBits": return ("C", "NumBits", s.canon(t[1]), 31)
        return View.key(s, i, m)

def work_calls(V):
    """calls of the algebra layer that compute with forms: (inst, kind, index of the discriminant operand or None)"""
    for i in V.f.calls():
        if i.bb not in V.M.R or V.M.IN[i.bb] is None: continue
        b = short(i.dem).split("[")[0]
        if b == "operator*" and "form" not in i.dem: continue
        if b in WORK: yield i, b
        elif b.startswith("form::") and b.split("::")[-1] in ("from_abd", "identity", "generator", "reduce", "inverse"): yield i, b
        elif i.callee in ("__gmpz_root", "__gmpz_sqrt", "__gmpz_rootrem"): yield i, i.callee

def disc_operand(V, i, b):
    """canonical term of the discriminant a work call uses, None when the call has none"""
    a = [V.canon(t) if isinstance(t, tuple) else t for t in V.T.args_at(i)]
    ps, cm = split_params(i.dem); off = len(i.args) - len(ps)
    if b in ("DeserializeForm", "GetB"): return a[off]
    if b in ("FastPowFormNucomp",): return a[off + 1]
    if b in ("nudupl_form",): return a[off + 2]
    if b in ("nucomp_form",): return a[off + 3]
    if b == "root":
        t = a[off]
        return t[1] if t[0] == "integer::operator-" else ("neg-of", t)
    return None

def sign_facts(V, inst):
    """discriminant terms certainly negative just before inst"""
    at = V.M.at(inst); out = set()
    if at is None: return None
    for a in at:
        i = V.f.insts[a[0]]
        if len(a) == 3 and i.op == "load" and negative(a[1], a[2], 32):
            r, o = V.T.obj(i.ops[0])
            if o is None or o < 4: continue
            st = V.T.at(i); t = st.get((r, o - 4), ("init", (r, o - 4)))
            out.add(V.canon(t))
        c = V.T.callres.get(i.i) if i.is_call() else None
        if c is None: continue
        tr = a[1] if len(a) == 2 else None
        k = c[2] if len(c) > 2 else None
        k = kint(V.canon(k)) if k is not None else None
        if k is not None and k >> 31: k -= 1 << 32
        op = {"integer::operator<": "slt", "integer::operator<=": "sle", "integer::operator>": "sgt", "integer::operator>=": "sge"}.get(c[0])
        if op and tr is not None and k is not None:
            from ..bools import INVP
            if negative(op if tr else INVP[op], k, 32): out.add(V.canon(c[1]))
    return out

def negative(pred, k, w):
    """does (value pred k) imply value < 0 ?"""
    if k >> (w - 1) and k > 0: k -= 1 << w
    return pred == "slt" and k <= 0 or pred == "sle" and k < 0 or pred == "eq" and k < 0

def run(R):
    R.rule("V04.sign", "every form operation reached by a verification entry point is dominated by a successful test that the discriminant is negative", floor=20)
    R.rule("V04.size", "every form operation reached by a verification entry point is dominated by a successful test that the discriminant has at most %d bits" % MAXBITS, floor=20)
    R.rule("V04.create", "hash-to-prime runs only for a length that is positive, at most the maximum and a multiple of 8, and a non-empty seed", floor=4)
    R.rule("V04.create-entry", "discriminants are created through the checked function only", floor=4)
    for label, V0, sp in entries():
        V = NView(V0.f); f = V.f; R.saw("entry points", label); R.saw("functions", f.dem[:120])
        n = 0
        for i, b in work_calls(V):
            n += 1
            neg = sign_facts(V, i); d = disc_operand(V, i, b)
            what = "%s: %s" % (label, b)
            if neg is None: continue
            if d is None: ok = bool(neg)
            else: ok = d in neg
            R.check("V04.sign", ok, i.where(), "%s runs without the discriminant having been tested negative" % what, inst="%s @%s" % (what, i.where()), key=what + " sign")
            cands = [d] if d is not None else list(neg)
            ok = any(V.L.prove(K(MAXBITS) - A(("C", "NumBits", c, 31)), i.bb) for c in cands)
            R.check("V04.size", ok, i.where(), "%s runs without the discriminant having been tested to have at most %d bits" % (what, MAXBITS), inst="%s @%s" % (what, i.where()), key=what + " size")
        if not n: raise Broken("%s performs no recognised form operation" % label)
    creation(R)

def creation(R):
    for tu in ("c_wrapper", "fastvdf"):
        M = ir.view_if(tu, lambda f, m, d: short(d).split("[")[0] == "CreateDiscriminant", lambda f, m, d: keep(f, m, d) and short(d) != "CreateDiscriminant")
        if not M.funcs: raise Broken("CreateDiscriminant not found")
        for f in M.funcs.values():
            V = NView(f); R.saw("functions", f.dem)
            if len(f.params) != 3: raise Broken("CreateDiscriminant has changed its parameters")
            hs = [i for i in f.calls() if short(i.dem).split("[")[0] == "HashPrime"]
            if not hs: R.bad("V04.create", f.dem, "CreateDiscriminant derives no prime by hashing", key="no hash")
            for i in hs:
                L = V.L.sx(("a", 2))
                if i.bb not in V.M.R or V.M.IN[i.bb] is None: continue
                w = i.where()
                R.check("V04.create", V.L.sx(i.args[2]).key() == L.key(), w, "hash-to-prime is asked for another length than the caller's", inst=tu + " length passed on", key="length operand")
                R.check("V04.create", V.L.prove(L - K(1), i.bb), w, "a bit length that is not positive reaches hash-to-prime", inst=tu + " length > 0", key="length > 0")
                R.check("V04.create", V.L.prove(K(MAXBITS) - L, i.bb), w, "a bit length above %d reaches hash-to-prime" % MAXBITS, inst=tu + " length <= max", key="length <= max")
                at = V.M.at(i)
                R.check("V04.create", any(mult8(V, a, ("a", 2)) for a in at), w, "a bit length that is not a multiple of 8 reaches hash-to-prime", inst=tu + " length % 8", key="length % 8")
                R.check("V04.create", any(nonempty(V, a, ("a", 1)) for a in at) or nonempty_lin(V, i, ("a", 1)), w, "an empty seed reaches hash-to-prime", inst=tu + " seed", key="seed empty")
        # nobody else hashes to a discriminant
        for f, m, d in ir.listing(tu): pass
    # the published creators
    for nm, V in (("C create_discriminant_wrapper", c_entry("create_discriminant_wrapper")), ("C prove_wrapper", c_entry("prove_wrapper")),
                  ("Python create_discriminant", py_entry("create_discriminant")), ("Python prove", py_entry("prove"))):
        f = V.f; R.saw("entry points", nm); R.saw("functions", f.dem[:120])
        hp = [i for i in f.calls() if short(i.dem).split("[")[0] == "HashPrime"]
        cd = [i for i in f.calls() if short(i.dem).split("[")[0] == "CreateDiscriminant"]
        R.check("V04.create-entry", cd and not hp, f.dem[:60], "%s does not create its discriminant through the checked function" % nm, inst=nm, key=nm + " create")
        for i, b in work_calls(V):
            d = disc_operand(V, i, b)
            R.check("V04.create-entry", d is None or d[0] == "CreateD", i.where(), "%s: %s works with a discriminant that was not created by the checked function" % (nm, b), inst="%s %s @%s" % (nm, b, i.where()), key="%s %s disc" % (nm, b))

def keep(f, m, d):
    from ..model import keep_algebra
    return keep_algebra(f, m, d)

def mult8(V, a, v):
    """fact a says that v is a multiple of 8"""
    i = V.f.insts[a[0]]
    zero = len(a) == 2 and a[1] is False or len(a) == 3 and a[1] == "eq" and a[2] == 0
    if not zero: return False
    if i.op == "and" and i.ops[0] == v and (const(i.ops[1]) or 0) & 7 == 7 and (const(i.ops[1]) or 0) in (7,): return True
    if i.op in ("srem", "urem") and i.ops[0] == v and (const(i.ops[1]) or 1) % 8 == 0: return True
    return False

def seed_obj(V, t, v): return V.canon(t) == ("init", (v, 0))
def nonempty(V, a, v):
    i = V.f.insts[a[0]]; c = V.T.callres.get(i.i) if i.is_call() else None
    if c is None or len(c) < 2 or not seed_obj(V, c[1], v): return False
    if c[0] == "empty": return len(a) == 2 and a[1] is False
    if c[0] == "size": return len(a) == 2 and a[1] is True
    return False
def nonempty_lin(V, i, v): return V.L.prove(A(("C", "size", ("init", (v, 0)), 62)) - K(1), i.bb)
