"""Structure of the nested (N-)Wesolowski verification loop, recovered from the value flow of an entry point."""
from .verif import *
from . import pyapi

SEG, B_OFF, P_OFF, FORM, BLEN = 141, 8, 41, 100, 33

def data(k): return ("data", ("init", (("a", k), 0)))
class Spec:
    def __init__(s, kind, x, blob, total, depth=None, b=None, y=None, proof=None, xlen=None, bloblen=None, sizes=None):
        s.kind = kind; s.x = x; s.blob = blob; s.total = total; s.depth = depth; s.b = b; s.y = y; s.proof = proof
        s.xlen = xlen; s.bloblen = bloblen

def entries():
    """(label, view, spec) of every published verification entry point"""
    out = []
    out.append(("C verify_n_wesolowski_wrapper", c_entry("verify_n_wesolowski_wrapper"),
                Spec("n", ("a", 2), ("a", 3), 5, 6, xlen=("const", 100), bloblen=("arg", 4))))
    def py(name, kind, sret, x, blob, total, depth, **kw):
        # argument numbers of the python signature -> IR parameters (sret, this, arguments...)
        o = 1 + sret
        arg = lambda k: ("data", ("init", (("a", k + o), 0)))
        sp = Spec(kind, arg(x), arg(blob) if blob is not None else None, total + o, None if depth is None else depth + o,
                  xlen=("str", x + o), bloblen=("str", blob + o) if blob is not None else None, **{k: arg(v) for k, v in kw.items()})
        sp.o = o
        out.append(("Python " + name, py_entry(name), sp))
    py("verify_wesolowski", "single", 0, 1, None, 4, None, y=2, proof=3)
    py("verify_n_wesolowski", "n", 0, 1, 2, 3, 5)
    py("create_discriminant_and_verify_n_wesolowski", "n", 0, 2, 3, 4, 5)
    py("verify_n_wesolowski_with_b", "b", 1, 2, 3, 4, 5, b=1)
    py("get_b_from_n_wesolowski", "getb", 1, 1, 2, 3, 4)
    return out

def offE(V, t):
    """E of a canonical pointer term's offset"""
    k = t[2]
    if k and k[0] == "?": return None
    return E(dict(k[0]), k[1])

def ptr_is(V, t, root, off):
    if t[0] != "p" or t[1] != root: return False
    o = offE(V, t)
    return o is not None and (o - off).const() == 0

def deser_at(V, t, D, root, off):
    return t[0] == "Deser" and t[1] == D and ptr_is(V, t[2], root, off)

def resolve(V, t, p, b):
    """resolve a memory phi in block b on the edge from p when only some predecessors are possible"""
    return t

class Segment: pass

def segment(V, eq, spec):
    """the per-segment equation: (o, problem)"""
    m = eq; S = Segment(); S.m = m; S.o = None
    T = m["T"]
    if T[0] != "e": return S, "the exponent is not the segment's own iteration count"
    te = E(dict(T[1][0]), T[1][1])
    a = next(iter(te.t)) if len(te.t) == 1 and te.c == 0 else None
    if a is None or te.t[a] != 1 or not (isinstance(a, tuple) and a[0] == "C" and a[1] == "BE64"):
        return S, "the segment's iteration count is not the 8-byte big-endian field of the proof blob"
    S.T = te
    if a[2][1] != spec.blob: return S, "the segment's iteration count is not read from the proof blob"
    o = offE(V, a[2])
    if o is None: return S, "the segment's offset is not resolved"
    S.o = o
    B = m["B"]
    if not (B[0] == "Ctor" and len(B) == 4 and ptr_is(V, B[2], spec.blob, o + K(B_OFF)) and kint(B[3]) == BLEN):
        return S, "B is not the 33 bytes behind the segment's iteration count"
    if not deser_at(V, m["proof"], m["D"], spec.blob, o + K(P_OFF)):
        return S, "the segment's proof element is not the form behind its B"
    return S, None

def xchain(V, xt):
    """phi at a loop header for the running input element, or a plain term (no loop)"""
    if xt[0] != "phi": return None
    return xt[1] if xt[1] in V.L.loops else None
