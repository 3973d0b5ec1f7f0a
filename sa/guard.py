"""Interprocedural guard domination: is a construct reached only when a guard condition is certain?
A guard may be tested in the function itself, inside a boolean helper (return-value summary) or in every caller."""
from .bools import Must, TOP
from .ir import short

class Guard:
    def __init__(s, M, base):
        """base(f, inst, truth) -> True when the atom (inst, truth) establishes the guard"""
        s.M = M; s.base = base; s.must = {}; s.sum = {}; s.callers = {}; s.taken = set()
        # referenced by library code (thread launchers, comparators, ...): only with a call-graph view
        direct = {(f.name, i.callee) for f in M.funcs.values() for i in f.calls()}
        s.refd = {z for n, e in M.edges.items() for z in e if (n, z) not in direct}
        for f in M.funcs.values():
            for i in f.all():
                c = i.callee if i.is_call() else None
                if c in M.funcs: s.callers.setdefault(c, []).append(i)
                for v in list(i.ops) + list(i.args):
                    if v and v[0] in ("g", "F") and v[1] in M.funcs: s.taken.add(v[1])
                for v, _ in i.d.get("inc", []):
                    if v and v[0] in ("g", "F") and v[1] in M.funcs: s.taken.add(v[1])
    def m(s, f):
        if f.name not in s.must: s.must[f.name] = Must(f)
        return s.must[f.name]
    def est(s, f, a):
        """does atom a establish the guard?"""
        if len(a) != 2: return False
        i = f.insts[a[0]]
        if s.base(f, i, a[1]): return True
        if i.is_call() and i.callee in s.M.funcs: return s.summary(i.callee, a[1])
        return False
    def summary(s, name, truth):
        """the function returns `truth` only when the guard holds"""
        k = (name, truth)
        if k in s.sum: return s.sum[k]
        s.sum[k] = False
        f = s.M.funcs[name]; m = s.m(f); r = False
        if f.ret == "i1":
            r = True; n = 0
            for b in f.blocks:
                if b.b not in m.R or b.term.op != "ret": continue
                n += 1
                v = b.term.ops[0]
                for st, _ in m.cases(v, "ne" if truth else "eq", 0, b.b):
                    if st is TOP: continue
                    if not any(s.est(f, a) for a in st): r = False
            r = r and n > 0
        s.sum[k] = r
        return r
    def local(s, i):
        at = s.m(i.fn).at(i)
        return at is TOP or any(s.est(i.fn, a) for a in at)
    def open_path(s, i, seen=()):
        """None when guarded, else the unguarded call chain (outermost last)"""
        if s.local(i): return None
        f = i.fn
        if f.name in seen: return None
        cs = s.callers.get(f.name, [])
        if f.name in s.taken or f.name in s.refd or not f.name.startswith("_Z"): return [i]     # address taken, main, or exported with C linkage
        # a C++ function nobody calls is dead code in this program
        for c in cs:
            r = s.open_path(c, seen + (f.name,))
            if r is not None: return [i] + r
        return None
