"""Shared program views of the verification entry points (C wrapper and Python bindings) with everything between the
entry point and the algebra layer inlined."""
from . import ir, pyapi
from .ir import short, Broken
from .terms import Terms
from .bools import Must, const
from .lin import Lin, E, K, A
from .model import Model, keep_algebra

class View:
    def __init__(s, f, model=None):
        s.f = f; s.T = Terms(f, model or Model()); s.M = Must(f)
        s.L = Lin(f, s.key)
        s.cm = {}
        s.terms = s.T
    def key(s, i, m):
        t = s.T.callres.get(i.i)
        if t is None: return None
        w = {"i64": 64, "i32": 32, "i8": 8}.get(i.ty)
        if t[0] == "BE64" and m == "U": return ("C", "BE64", s.canon(t[1]), 64)
        if t[0] == "size": return ("C", "size", s.canon(t[1]), 62)
        return None
    def ptr(s, v, d=0):
        """(root term, byte offset E or None)"""
        off = K(0)
        for _ in range(60):
            i = s.f.inst(v)
            if i is None:
                if v and v[0] == "g": return ("g", v[1]), off + K(v[2]) if off is not None else None
                return v, off
            if i.op == "getelementptr":
                if "off" in i.d: off = off + K(i.d["off"]) if off is not None else None
                elif "voff" in i.d:
                    if off is not None:
                        off = off + K(i.d["coff"])
                        for x, k in i.d["voff"]: off = off + s.L.sx(ir.tuplify(x)).mul(k) if s.L.wty(ir.tuplify(x)) != 64 else off + s.idx(ir.tuplify(x)).mul(k)
                else: off = None
                v = i.ops[0]; continue
            if i.is_call() and i.i in s.T.callres and s.T.callres[i.i][0] in ("data", "begin"):
                return ("data", s.canon(s.T.callres[i.i][1])), off
            return v, off
        return v, None
    def idx(s, v):
        """index value: the unsigned form when known linear, else signed"""
        u = s.L.u(v); x = s.L.sx(v)
        if ("S", v) in x.t and not ("U", v) in u.t: return u
        if ("U", v) in u.t: return x
        return u
    def canon(s, t):
        if t in s.cm: return s.cm[t]
        if isinstance(t, tuple) and t:
            if t[0] == "val":
                v = t[1]
                if s.L.wty(v) is not None: 
                    e = s.L.u(v); r = ("e", e.key())
                else: r = t
            elif t[0] == "ptr":
                root, off = s.ptr(t[1]); r = ("p", root, off.key() if off is not None else ("?", t[1]))
            elif t[0] == "FPow":
                r = ("FPow",) + tuple(s.canon(x) for x in t[1:4])
            elif t[0] == "Mul":
                a, b = sorted((s.canon(t[1]), s.canon(t[2])), key=repr); r = ("Mul", a, b)
            elif t[0] == "Deser": r = ("Deser",) + tuple(s.canon(x) for x in t[1:4])
            elif t[0] == "phi": r = t
            elif t[0] in ("init", "call", "zero", "default"): r = t
            else: r = tuple(s.canon(x) if isinstance(x, tuple) else x for x in t)
        else: r = t
        s.cm[t] = r
        return r
    def eqs(s):
        """every equality test of the algebra layer: inst id -> (lhs, rhs) canonical terms"""
        return {i: (s.canon(t[1]), s.canon(t[2])) for i, t in s.T.callres.items() if t[0] == "Eq"}

def kint(t):
    """constant of a canonical integer term"""
    return t[1][1] if t[0] == "e" and not t[1][0] else None

def match_equation(a, b):
    """Wesolowski segment equation -> dict(D,x,y,proof,B,T) or None; a == b is the tested equality"""
    for l, r in ((a, b), (b, a)):
        # B == GetB(D, x, Mul(proof^B, x^(2^T mod B)))
        if r[0] == "GetB":
            D, x, y = r[1:4]
            m = match_mul(y)
            if m and m["D"] == D and m["B"] == l and m["x"] == x: return dict(m, y=y)
        # Mul(..) == y with B = GetB(D, x, y)
        if l[0] == "Mul":
            m = match_mul(l)
            if m and m["B"] == ("GetB", m["D"], m["x"], r): return dict(m, y=r)
    return None

def match_mul(y):
    if y[0] != "Mul": return None
    for p, q in ((y[1], y[2]), (y[2], y[1])):
        if p[0] != "FPow" or q[0] != "FPow": continue
        e = q[3]
        if e[0] != "PowMod" or kint(e[1]) != 2: continue
        if p[2] != q[2] or p[3] != e[3]: continue
        return dict(D=p[2], proof=p[1], x=q[1], B=p[3], T=e[2])
    return None

_views = {}
def c_entry(name):
    k = ("c", name)
    if k not in _views:
        M = ir.view_if("c_wrapper", lambda f, m, d: m == name, keep_algebra)
        _views[k] = View(M.funcs[name])
    return _views[k]
def py_entry(name):
    k = ("py", name)
    if k not in _views:
        D = pyapi.pybind_defs()
        if name not in D: raise Broken("python function %s is not defined" % name)
        mn = D[name][0]
        M = ir.view_if("fastvdf", lambda f, m, d: m == mn, keep_algebra)
        _views[k] = View(M.funcs[mn])
    return _views[k]
