"""Which of its own parameters can reach each argument of a call: flow-insensitive may-dependence of memory objects and
SSA values on the function's parameters (const-qualified and effect-free positions do not write)."""
from .effects import Effects, split_params, const_pointee

class ParamDeps:
    def __init__(s, f, E=None, skip=()):
        """skip: callee predicate whose calls neither write nor return anything dependent"""
        s.f = f; s.E = E or Effects(f.mod); s.skip = skip
        s.obj = {}; s.val = {}
        ch = True; n = 0
        while ch and n < 60:
            ch = False; n += 1
            for i in f.all(): ch |= s.step(i)
    def roots(s, v): return s.E.roots(s.f, v)
    def of(s, v):
        """parameters the value (and what it points to) depends on"""
        r = set(s.val.get(v, ()))
        if v and v[0] == "a": r.add(v[1])
        for x in s.roots(v):
            if x[0] == "a": r.add(x[1])
            r |= s.obj.get(x, set())
        return r
    def add(s, d, k, vs):
        o = d.setdefault(k, set()); n = len(o); o |= vs
        return len(o) != n
    def step(s, i):
        ch = False
        if i.op == "store":
            t = s.of(i.ops[0])
            for x in s.roots(i.ops[1]):
                if x[0] == "l": ch |= s.add(s.obj, x, t)
            # storing a pointer to a local object makes them one
            return ch
        if i.op in ("br", "switch", "ret", "unreachable", "resume", "landingpad"): return False
        if i.is_call():
            if i.callee and i.callee.startswith(("llvm.dbg", "llvm.lifetime")): return False
            if s.skip and s.skip(i): return False
            t = set()
            for a in i.args: t |= s.of(a)
            for k in s.E.written_args(s.f, i):
                if k < len(i.args):
                    for x in s.roots(i.args[k]):
                        if x[0] == "l": ch |= s.add(s.obj, x, t)
            if i.ty != "void": ch |= s.add(s.val, ("v", i.i), t)
            return ch
        t = set()
        for o in i.ops: t |= s.of(o)
        if i.op == "phi":
            for v, _ in s.f.phi_inc(i): t |= s.of(v)
        if i.op == "alloca": return False
        return s.add(s.val, ("v", i.i), t)
