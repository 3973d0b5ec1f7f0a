"""Interprocedural event ordering over the not-inlined view: which calls can reach an event, which functions always
perform one, what happens before and after a construct.  Virtual calls are resolved through the vtables."""
from .ir import short

def vtables(M):
    """class -> list of slot function names"""
    r = {}
    for g, x in M.globals.items():
        if not g.startswith("_ZTV"): continue
        ini = x.get("init")
        if not ini or ini[0] != "A": continue
        for sub in ini[1:]:
            if sub and sub[0] == "A":
                r[x["dem"].replace("vtable for ", "")] = [z[1] if z and z[0] == "F" else None for z in sub[3:]]
                break
    return r

def dispatch(f):
    """phis that carry the number of the way out of a cleanup to the switch that takes it"""
    if not hasattr(f, "_disp"):
        r = set()
        st = [f.inst(b.term.ops[0]) for b in f.blocks if b.term is not None and b.term.op == "switch"]
        while st:
            i = st.pop()
            if i is None or i.op != "phi" or i.i in r: continue
            r.add(i.i); st += [f.inst(v) for v, _ in f.phi_inc(i)]
        f._disp = {}
        for k in r: f._disp.setdefault(f.insts[k].bb, []).append(f.insts[k])
    return f._disp

def move(f, tr, env, b, z):
    """values of those phis after going from b to z"""
    if not tr: return env
    ps = tr.get(z)
    if not ps: return env
    e = dict(env); n = dict(env)
    for p in ps:
        n.pop(("v", p.i), None)
        for v, pb in f.phi_inc(p):
            if pb == b:
                k = int(v[1]) if v[0] == "c" else e.get(v)
                if k is not None: n[("v", p.i)] = k
    return frozenset(n.items())

def chosen(t, k):
    for c, z in t.d["cases"]:
        if int(c[1]) == k: return z
    return t.d["def"]

class Order:
    def __init__(s, C):
        s.C = C; s.M = C.M; s.L = C.L
        s.vt = vtables(s.M)
        s.memo = {}
        s.up = None
    def bases(s, cls):
        st = s.M.structs.get(cls); r = {cls}
        if st:
            for m in st["members"]:
                if m["name"] == "<base>": r |= s.bases(m["type"].replace("class ", "").replace("struct ", ""))
        return r
    def related(s, cls):
        r = s.bases(cls)
        for c in s.vt:
            if cls in s.bases(c): r.add(c)
        return r
    def slot(s, f, i):
        """vtable slot of an indirect call, or None"""
        cv = i.d.get("cv")
        x = f.inst(tuple(cv)) if cv else None
        if x is None or x.op != "load": return None
        b, off = f.base_off(x.ops[0])
        y = f.inst(b)
        if y is None or y.op != "load" or not isinstance(off, int): return None
        return off // 8
    def virt(s, f, i):
        if i.callee is not None: return set()
        n = s.slot(f, i)
        if n is None: return set()
        cls = None
        p = short(f.dem).split("::")
        if i.args and i.args[0] == ("a", 0) and len(p) > 1: cls = p[-2]
        cand = s.related(cls) if cls and (cls in s.vt or cls in s.M.structs) else set(s.vt)
        return {s.vt[c][n] for c in cand if c in s.vt and n < len(s.vt[c]) and s.vt[c][n] in s.M.funcs}
    def targets(s, f, i): return s.L.targets(i) | s.virt(f, i)
    def callers(s):
        if s.up is None:
            s.up = {}
            for f in s.M.funcs.values():
                for i in f.calls():
                    for t in s.targets(f, i): s.up.setdefault(t, []).append((f, i))
        return s.up
    # ---- events: ev(f, i) -> bool
    def may(s, ev):
        """functions on some path of which the event happens"""
        k = ("may", ev)
        if k in s.memo: return s.memo[k]
        r = {f.name for f in s.M.funcs.values() if any(ev(f, i) for i in f.all())}
        st = list(r); up = s.callers()
        while st:
            for f, i in up.get(st.pop(), ()):
                if f.name not in r: r.add(f.name); st.append(f.name)
        s.memo[k] = r
        return r
    def must(s, ev):
        """functions every normal return of which comes after the event"""
        k = ("must", ev)
        if k in s.memo: return s.memo[k]
        cand = s.may(ev); r = set(); ch = True
        s.memo[k] = r
        while ch:
            ch = False
            for n in cand:
                if n in r: continue
                f = s.M.funcs[n]
                if not s.reach_without(f, [(0, 0)], ev, lambda f, i: i.op == "ret"): r.add(n); ch = True
        return r
    def hit(s, f, i, ev):
        """the construct performs the event for certain"""
        if ev(f, i): return True
        if not i.is_call(): return False
        t = s.targets(f, i)
        return bool(t) and all(x in s.must(ev) for x in t)
    def mayhit(s, f, i, ev):
        if ev(f, i): return True
        return i.is_call() and any(x in s.may(ev) for x in s.targets(f, i))
    def reach_without(s, f, starts, ev, goal, edge=None, exc=False):
        """first goal construct reached from a start (block, index) by a path that does not perform ev; None if none"""
        tr = dispatch(f)
        seen = set(); st = [(b, i, frozenset()) for b, i in starts]
        while st:
            b, idx, env = st.pop()
            if (b, idx, env) in seen: continue
            seen.add((b, idx, env))
            blk = f.blocks[b]; stop = False
            def step(z):
                st.append((z, 0, move(f, tr, env, b, z)))
            for i in blk.insts[idx:]:
                if goal(f, i): return i
                if ev is not None and s.hit(f, i, ev):
                    stop = True
                    if i.op == "invoke" and exc: step(i.d["unw"])
                    break
            if stop: continue
            t = blk.insts[-1]
            k = dict(env).get(t.ops[0]) if t.op == "switch" and tr else None
            for z in blk.succ:
                if t.op == "invoke" and z == t.d["unw"] and not exc and z != t.d["norm"]: continue
                if k is not None and z != chosen(t, k): continue
                if edge is not None and not edge(f, b, z): continue
                step(z)
        return None
    def nxt(s, i, exc=False):
        """start positions following a construct"""
        if i.op == "invoke": return [(i.d["norm"], 0)] + ([(i.d["unw"], 0)] if exc else [])
        return [(i.bb, i.idx + 1)]
    def before(s, f, i, ev, exc=True):
        """every path from the entry of f to i performs ev"""
        return s.reach_without(f, [(0, 0)], ev, lambda g, x: x.i == i.i, exc=exc) is None
    def before_up(s, f, i, ev, depth=0, seen=frozenset()):
        """as before, but a caller may have performed it"""
        if s.before(f, i, ev): return True
        if f.name in seen or depth > 12: return False
        cs = s.callers().get(f.name, [])
        if not cs or f.name in s.C.entries: return False
        return all(s.before_up(g, j, ev, depth + 1, seen | {f.name}) for g, j in cs)
    def after(s, f, i, ev, exc=False):
        """first construct after i that may perform ev"""
        return s.reach_without(f, s.nxt(i, exc), None, lambda g, x: s.mayhit(g, x, ev), exc=exc)
    def follows(s, f, i, ev):
        """every path from i to a normal return performs ev"""
        return s.reach_without(f, s.nxt(i), ev, lambda g, x: x.op == "ret") is None
