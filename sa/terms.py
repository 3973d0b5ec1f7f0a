"""Value-flow over objects: which symbolic value each class-typed object holds at each program point.
Objects are (root pointer, constant offset); library-level operations are term constructors given by a model; control
joins create phi terms.  No execution and no solver: a forward dataflow to a fixpoint over the term domain."""
from .ir import short
from . import effects

def split_params(dem):
    """top-level parameter list of a demangled name, and whether the method is const"""
    s = dem.replace("(anonymous namespace)", "@anon").replace("operator()", "operator@call")
    for o in ("operator<<=", "operator>>=", "operator<<", "operator>>", "operator<=", "operator>=", "operator->"): s = s.replace(o + "(", "operator@" + "x" * (len(o) - 9) + "(")
    depth = 0; start = None; end = None
    for k, c in enumerate(s):
        if c == "<" and not s[:k].endswith("operator"): depth += 1
        elif c == ">" and depth and not s[:k].endswith("operator"): depth -= 1
        elif c == "(" and depth == 0 and start is None: start = k; break
    if start is None: return [], False
    d = 0
    for k in range(start, len(s)):
        if s[k] in "(<[": d += 1
        elif s[k] in ")>]": d -= 1
        if s[k] == ")" and d == 0: end = k; break
    if end is None: return [], False
    ps = []; cur = ""; d = 0
    for c in s[start + 1:end]:
        if c in "(<[": d += 1
        elif c in ")>]": d -= 1
        if c == "," and d == 0: ps.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): ps.append(cur.strip())
    return ps, s[end + 1:].strip().startswith("const")

class Terms:
    def __init__(s, f, model):
        s.f = f; s.model = model; s.R = f.reach_entry()
        s.bo = {}
        s.IN = {}; s.ev = {}; s.phis = {}; s.callres = {}
        s.run()
    # ---------------------------------------------------------------- objects
    def obj(s, v):
        if v not in s.bo:
            r, o = s.f.base_off(v)
            s.bo[v] = (r, o)
        return s.bo[v]
    def get(s, st, v):
        """term of the object v points to"""
        key = s.obj(v)
        if key in st: return st[key]
        r, o = key
        if o is None: return ("elem", s.get(st, r) if r != v else ("init", key), v)
        for d in (8, 16, 24, 32, 40, 48):
            k2 = (r, o - d)
            if o - d >= 0 and k2 in st: return ("field", st[k2], d)
        return ("init", key)
    def put(s, st, v, t):
        r, o = s.obj(v)
        if o is None:
            st[(r, 0)] = ("mutated", t) ; return
        for d in range(1, 49):
            if (r, o - d) in st and o - d >= 0 and s.covers(st[(r, o - d)], d): st[(r, o - d)] = ("mutated", t)
        st[(r, o)] = t
    def covers(s, t, d):
        if t[0] == "init" and t[1][0][0] == "a" and t[1][1] == 0:
            ps, cm = split_params(s.f.dem); k = t[1][0][1] - (len(s.f.params) - len(ps))
            if 0 <= k < len(ps) and ps[k] in ("integer const&", "integer&"): return d < 16
        return s.model.covers(t, d)
    # ---------------------------------------------------------------- dataflow
    def run(s):
        f = s.f
        from .bools import Must
        order = Must.rpo(s)
        s.IN = {0: {}}
        ch = True; n = 0
        while ch:
            ch = False; n += 1
            if n > 200: raise RuntimeError("terms diverge in " + f.dem)
            for b in order:
                if b not in s.IN: continue
                out = s.transfer(b, dict(s.IN[b]))
                s.ev[b] = out
            for b in order:
                if b == 0: continue
                preds = [p for p in f.blocks[b].pred if p in s.ev]
                if not preds: continue
                new = s.join(b, preds, n)
                if s.IN.get(b) != new: s.IN[b] = new; ch = True
        s.OUT = s.ev
    def edge_state(s, p, b):
        return s.ev[p]
    def join(s, b, preds, n=0):
        keys = set()
        for p in preds: keys |= set(s.ev[p])
        res = {}
        for k in keys:
            ph = ("phi", b, k)
            vals = {p: s.ev[p].get(k, ("init", k)) for p in preds}
            u = set(vals.values())
            if n > 60 and k in s.IN.get(b, {}) and s.IN[b][k] == ph:
                s.phis[(b, k)] = vals; res[k] = ph; continue
            u.discard(ph)           # unchanged around the loop
            if len(u) == 1: res[k] = next(iter(u))
            else: s.phis[(b, k)] = vals; res[k] = ph
        return res
    def phi_inputs(s, t):
        b, k = t[1], t[2]
        return {p: s.ev[p].get(k, ("init", k)) for p in s.f.blocks[b].pred if p in s.ev}
    def transfer(s, b, st):
        for i in s.f.blocks[b].insts:
            if i.is_call(): s.call(st, i)
            elif i.op == "store":
                val, p = i.ops[0], i.ops[1]
                s.put(st, p, ("val", val))
            elif i.op == "memcpy": pass
        return st
    def call(s, st, i):
        d = i.dem; sh = short(d)
        r = s.model.call(s, st, i, sh)
        if r is not NotImplemented: return
        if d.startswith("llvm."):
            if "memcpy" in d or "memmove" in d:
                s.put(st, i.args[0], s.get(st, i.args[1]))
            elif "memset" in d: s.put(st, i.args[0], ("zero",))
            return
        # unknown function: havoc what it may modify
        ps, cm = split_params(d)
        args = list(i.args)
        names = []
        off = len(args) - len(ps)
        # hidden leading arguments (sret, this) are modified unless the method is const
        for k, a in enumerate(args):
            if a[0] not in ("v", "a"): continue
            if not s.is_ptr(a): continue
            if k >= off:
                t = ps[k - off]
                if t.endswith("const&") or t.endswith("const*") or not (t.endswith("&") or t.endswith("*")) and not t.endswith("]"):
                    continue
            elif cm and k == off - 1: continue
            elif "~" in sh: continue
            s.put(st, a, ("call", sh, i.i, k))
    def is_ptr(s, a):
        i = s.f.inst(a)
        if i is not None: return i.ty == "ptr"
        if a[0] == "a": return s.f.params[a[1]]["ty"] == "ptr"
        return False
    def at(s, inst):
        """state just before inst"""
        st = dict(s.IN.get(inst.bb, {}))
        for i in s.f.blocks[inst.bb].insts:
            if i.i == inst.i: break
            if i.is_call(): s.call(st, i)
            elif i.op == "store": s.put(st, i.ops[1], ("val", i.ops[0]))
        return st
    def args_at(s, inst):
        st = s.at(inst)
        return [s.get(st, a) if s.is_ptr(a) else ("val", a) for a in inst.args]
