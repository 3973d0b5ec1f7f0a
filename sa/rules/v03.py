from ..nweso import *
from .. import ir
from ..ir import Broken, short
from ..terms import split_params
from .v01_leaf import leaf

def extent(V, i, k):
    """bytes read through pointer argument k of call i: an E, 0 when nothing is read, None when unknown"""
    sh = short(i.dem).split("[")[0]; c = i.callee or ""
    if sh == "BytesToInt64": return K(8)
    if sh == "integer::integer" and len(i.args) == 3: return V.L.u(i.args[2])
    if sh == "DeserializeForm": return V.L.u(i.args[k + 1])
    if sh in ("bqfc_deserialize",): return V.L.u(i.args[4])
    if c == "__gmpz_import":
        return V.L.u(i.args[1]) if const(i.args[3]) == 1 and const(i.args[5]) == 0 else None
    if sh.startswith("llvm.memcpy") or sh.startswith("llvm.memmove") or c in ("memcpy", "memcmp", "memmove"): return V.L.u(i.args[2])
    if c.startswith("llvm.") and ("dbg" in c or "lifetime" in c): return K(0)
    return None

def accesses(V, roots):
    """(inst, root, offset E, extent E|None) of every read through one of the buffer roots"""
    f = V.f
    # pointer values derived from the roots
    for i in f.all():
        if i.bb not in V.M.R or V.M.IN[i.bb] is None: continue
        if i.op == "load":
            r, o = V.ptr(i.ops[0])
            if r in roots: yield i, r, o, K(i.d.get("size", 1)), 0
        elif i.op == "store":
            r, o = V.ptr(i.ops[0]) if is_ptr(f, i.ops[0]) else (None, None)
            if r in roots: yield i, r, o, None, 0
        elif i.is_call():
            for k, a in enumerate(i.args):
                if not is_ptr(f, a): continue
                r, o = V.ptr(a)
                if r not in roots: continue
                if V.T.callres.get(i.i, ("",))[0] in ("data", "begin", "end"): continue
                yield i, r, o, extent(V, i, k), k
        elif i.op in ("phi", "select"):
            vs = [v for v, _ in f.phi_inc(i)] if i.op == "phi" else i.ops[1:]
            if i.ty == "ptr" and any(V.ptr(v)[0] in roots for v in vs if v[0] in ("v", "a")):
                yield i, "merged", None, None, 0

def is_ptr(f, a):
    j = f.inst(a)
    if j is not None: return j.ty == "ptr"
    return a[0] == "a" and f.params[a[1]]["ty"] == "ptr"

def size_of(V, ln):
    kind, a = ln
    if kind == "const": return K(a)
    if kind == "arg": return A(("U", ("a", a)))
    return A(("C", "size", ("init", (("a", a), 0)), 62))

def run(R):
    R.rule("V03.read", "every read through a caller buffer lies inside it, for every length, depth and element size (linear entailment from the branch conditions on the way)", floor=20)
    R.rule("V03.form", "form decoding reads at most the declared number of bytes, and nothing unless that number is the fixed form size", floor=5)
    R.rule("V03.bytes", "a byte-string constructor reads exactly the declared number of bytes")
    R.assume_("C callers pass an input element of BQFC_FORM_SIZE (100) bytes: the C interface has no length for it")
    R.assume_("std::string sizes are below 2^62")
    for label, V, sp in entries():
        f = V.f; R.saw("entry points", label); R.saw("functions", f.dem[:120])
        bufs = {sp.x: size_of(V, sp.xlen)}
        if sp.blob: bufs[sp.blob] = size_of(V, sp.bloblen)
        for root in (sp.y, sp.proof):
            if root: bufs[root] = size_of(V, ("str", root[1][1][0][1]))
        if label.startswith("C "): bufs[("a", 0)] = A(("U", ("a", 1)))
        check_reads(R, "V03.read", label, V, bufs)
    prove_buffers(R)
    # the decoder
    M = ir.view_if("bqfc", lambda f, m, d: d == "bqfc_deserialize", lambda f, m, d: d in ("bqfc_decompr", "bqfc_serialize", "bqfc_compr"))
    f = next(iter(M.funcs.values())); V = View(f); R.saw("functions", f.dem)
    if len(f.params) != 7: raise Broken("bqfc_deserialize has changed its parameters")
    check_reads(R, "V03.form", "bqfc_deserialize", V, {("a", 3): A(("U", ("a", 4)))}, extra_fn=lambda i: 100 if (i.callee or "") in ("memcmp", "bcmp") else None)
    # canonical form buffer inside the decoder is a full form
    f = leaf("c_wrapper", "DeserializeForm"); V = View(f); R.saw("functions", f.dem)
    for i in f.calls():
        if short(i.dem) == "bqfc_deserialize":
            R.check("V03.form", i.args[3] == ("a", 2) and i.args[4] == ("a", 3), i.where(), "DeserializeForm passes another buffer or size on than its caller's", inst="DeserializeForm", key="DeserializeForm size")
    f = leaf("c_wrapper", "integer::integer", "(unsigned char const*, unsigned long)"); V = View(f)
    for i in f.calls():
        if i.callee == "__gmpz_import":
            R.check("V03.bytes", i.args[6] == ("a", 1) and V.L.u(i.args[1]).key() == A(("U", ("a", 2))).key() and const(i.args[3]) == 1, i.where(), "integer(bytes, n) imports something else than n bytes", inst="integer(bytes, n)", key="integer bytes")

def check_reads(R, rule, label, V, bufs, extra_fn=None):
    f = V.f
    for i, r, o, ext, k in accesses(V, bufs):
        nm = short(i.dem) if i.is_call() else i.op
        key = "%s: %s" % (label, nm)
        if r == "merged" or o is None:
            R.bad(rule, i.where(), "%s: a buffer pointer reaches %s at an offset that is not resolved" % (label, nm), key=key + " unresolved"); continue
        if ext is None:
            R.bad(rule, i.where(), "%s: a caller buffer is handed to %s without a provable length" % (label, nm), key=key + " no length"); continue
        lo = V.L.prove(o, i.bb); hi = V.L.prove(bufs[r] - o - ext, i.bb)
        if ext.const() == 0: continue
        R.check(rule, lo and hi, i.where(), "%s: %s reads [%s, +%s) of a buffer whose length is only known to be %s" % (label, nm, o, ext, bufs[r]),
                inst="%s %s @%s off %s len %s" % (label, nm, i.where(), o, ext), key=key + " may read outside")

def prove_buffers(R):
    """the slow prover's entry points read their element through the same decoder"""
    from .. import pyapi
    V = c_entry("prove_wrapper")
    check_reads(R, "V03.read", "C prove_wrapper", V, {("a", 2): A(("U", ("a", 3)))})
    for name, x in (("prove", 2), ("bqfc_deserialize", 2)):
        V = py_entry(name)
        sret = 1
        root = ("data", ("init", (("a", x + sret), 0)))
        check_reads(R, "V03.read", "Python " + name, V, {root: size_of(V, ("str", x + sret))})
