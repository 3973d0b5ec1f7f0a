"""Linear-inequality abstract interpretation over SSA values.

For a program point the facts are: the branch conditions of all dominating edges, the ranges of the machine types,
closed forms of induction variables, and caller-supplied summaries.  Integer arithmetic is only treated as exact
where the facts prove that it cannot wrap.  Entailment is decided by Fourier-Motzkin elimination with integer
tightening (a polyhedral abstract domain; every fact used is implied by the code on every path to the point)."""
from math import gcd
from .ir import short

class E:
    """linear expression sum(coef*atom)+c"""
    __slots__ = ("t", "c")
    def __init__(s, t=None, c=0): s.t = t or {}; s.c = c
    def __add__(s, o):
        t = dict(s.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + k
            if n: t[a] = n
            else: t.pop(a, None)
        return E(t, s.c + o.c)
    def __neg__(s): return E({a: -k for a, k in s.t.items()}, -s.c)
    def __sub__(s, o): return s + (-o)
    def mul(s, k): return E({a: x * k for a, x in s.t.items()} if k else {}, s.c * k)
    def const(s): return s.c if not s.t else None
    def __repr__(s): return " + ".join(["%s*%s" % (k, a) for a, k in s.t.items()] + [str(s.c)])
    def key(s): return (tuple(sorted(s.t.items(), key=repr)), s.c)

def K(c): return E({}, c)
def A(a): return E({a: 1}, 0)

def norm(e):
    g = 0
    for k in e.t.values(): g = gcd(g, k)
    if g > 1: return E({a: k // g for a, k in e.t.items()}, e.c // g)   # floor: integer tightening
    return e

def infeasible(cons, limit=4000):
    """are the constraints (each e >= 0, over integers) unsatisfiable?"""
    cs = {}
    def add(store, e):
        e = norm(e)
        if not e.t: return e.c >= 0
        k = tuple(sorted(e.t.items(), key=repr))
        if k not in store or store[k].c > e.c: store[k] = e
        return True
    for e in cons:
        if not add(cs, e): return True
    # equalities (e >= 0 and -e >= 0): substitute a unit-coefficient variable exactly
    while True:
        sub = None
        for k, e in cs.items():
            n = -e; n.c = -e.c
            k2 = tuple(sorted(n.t.items(), key=repr))
            if k2 in cs and cs[k2].c == -e.c:
                u = next((a for a, c in sorted(e.t.items(), key=repr) if abs(c) == 1), None)
                if u is not None: sub = (u, e, k, k2); break
        if sub is None: break
        u, e, k, k2 = sub
        r = e.mul(-e.t[u]); r = E({a: c for a, c in r.t.items() if a != u}, r.c)      # u == r
        new = {}
        for kk, x in cs.items():
            if kk in (k, k2): continue
            c = x.t.get(u, 0)
            if c:
                x = E({a: q for a, q in x.t.items() if a != u}, x.c) + r.mul(c)
            if not add(new, x): return True
        cs = new
    while cs:
        # pick the variable with the cheapest elimination
        pos, neg = {}, {}
        for e in cs.values():
            for a, k in e.t.items():
                (pos if k > 0 else neg).setdefault(a, []).append(e)
        vs = set(pos) | set(neg)
        v = min(vs, key=lambda a: (len(pos.get(a, [])) * len(neg.get(a, [])) - len(pos.get(a, [])) - len(neg.get(a, [])), repr(a)))
        P, N = pos.get(v, []), neg.get(v, [])
        new = {}
        for e in cs.values():
            if v not in e.t:
                if not add(new, e): return True
        for p in P:
            for n in N:
                a, b = p.t[v], -n.t[v]
                if not add(new, p.mul(b) + n.mul(a)): return True
                if len(new) > limit: return False
        cs = new
    return False

def entails(facts, goal):
    """facts (list of e>=0) imply goal>=0 ?"""
    # restrict to the connected component of the goal
    atoms = set(goal.t); sel = []; rest = list(facts); ch = True
    while ch:
        ch = False; nr = []
        for e in rest:
            if not e.t or atoms & set(e.t):
                sel.append(e); 
                if not set(e.t) <= atoms: atoms |= set(e.t); ch = True
            else: nr.append(e)
        if len(nr) != len(rest): ch = True
        rest = nr
    return infeasible(sel + [K(-1) - goal])

INV = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge", "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
def width(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else None

class Lin:
    def __init__(s, f, call_key=None, extra=None, loops=None):
        s.f = f; s.memo = {}; s.busy = set(); s.call_key = call_key or (lambda i, m: None)
        s.R = f.reach_entry(); s.loops = s.f_loops = loops if loops is not None else f.loops(); s.extra = extra or (lambda lin, i: [])
        s._bf = {}; s.raw = []; s.defs = {}; s.prev = {}; s.hyp = {}; s.depth = 0; s.taint = False; s.bfbusy = set()
        s.divs = {}
    # ---- types
    def wty(s, v):
        i = s.f.inst(v)
        if i is not None: return width(i.ty)
        if v[0] == "a": return width(s.f.params[v[1]]["ty"])
        if v[0] == "c": return v[2]
        return None
    def range_facts(s, e):
        out = []
        for a in e.t: out += s.atom_facts(a)
        return out
    def atom_facts(s, a):
        out = []
        if isinstance(a, tuple) and a[0] == "U": 
            w = s.wty(a[1]) or 64
            out += [A(a), K((1 << w) - 1) - A(a)]
            i = s.f.inst(a[1])
        elif isinstance(a, tuple) and a[0] == "S":
            w = s.wty(a[1]) or 64
            out += [A(a) + K(1 << (w - 1)), K((1 << (w - 1)) - 1) - A(a)]
        elif isinstance(a, tuple) and a[0] in ("N", "Z"): out += [A(a)]       # loop counter, nonnegative atom
        elif isinstance(a, tuple) and a[0] == "C": out += [A(a), K((1 << a[3]) - 1) - A(a)]
        elif isinstance(a, tuple) and a[0] == "SZ": out += [A(a), K((1 << 62)) - A(a)]
        out += s.defs.get(a, [])
        return out
    def close(s, cons):
        """add the range facts of all atoms (transitively)"""
        seen = set(); out = list(cons); st = list(cons)
        while st:
            e = st.pop()
            for a in e.t:
                if a in seen: continue
                seen.add(a)
                for x in s.atom_facts(a): out.append(x); st.append(x)
        return out
    # ---- expressions
    def u(s, v): return s.ex(v, "U")
    def sx(s, v): return s.ex(v, "S")
    def ex(s, v, m):
        """linear form of v; recursive dependences are resolved by rounds: a query that meets itself is answered with
        what the previous round established (initially: the opaque atom), which is always a valid equality"""
        k = (v, m)
        if k in s.hyp: return s.hyp[k]
        if k in s.memo: return s.memo[k]
        if k in s.busy:
            s.taint = True
            return s.prev.get(k) or A((m, v))
        if s.depth == 0: return s.rounds(lambda: s.ex(v, m))
        s.busy.add(k); s.depth += 1
        try: r = s._ex(v, m)
        finally: s.busy.discard(k); s.depth -= 1
        if r is None: r = A((m, v))
        s.memo[k] = r
        return r
    def rounds(s, fn):
        if s.depth: return fn()
        for n in range(6):
            s.taint = False; s.depth = 1
            try: r = fn()
            finally: s.depth = 0
            if not s.taint: return r
            new = {k: e for k, e in s.memo.items() if e.t != {(k[1], k[0]): 1} or e.c}
            if {k: e.key() for k, e in new.items()} == {k: e.key() for k, e in s.prev.items()}: return r
            s.prev = new; s.memo = {}; s._bf = {}
        return r
    def fits(s, e, m, w, block, extra=()):
        lo, hi = (0, (1 << w) - 1) if m == "U" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if e.const() is not None: return lo <= e.c <= hi
        F = s.close(s.facts(block) + list(extra) + s.range_facts(e))
        return entails(F, e - K(lo)) and entails(F, K(hi) - e)
    def _ex(s, v, m):
        if v[0] == "c":
            c = int(v[1]); w = v[2]
            if m == "U" and c < 0: c += 1 << w
            if m == "S" and w == 1: c = -c
            return K(c)
        i = s.f.inst(v)
        if i is None:
            return A((m, v))
        w = width(i.ty)
        op = i.op
        if op == "ptrtoint" : return A((m, v))
        if w is None: return None
        if op == "zext":
            e = s.ex(i.ops[0], "U"); return e
        if op == "sext":
            if m == "S": return s.ex(i.ops[0], "S")
            e = s.ex(i.ops[0], "S")
            return e if s.nonneg(e, i.bb) else None
        if op == "trunc":
            e = s.ex(i.ops[0], m)
            if s.fits(e, m, w, i.bb): return e
            return None
        if op in ("add", "sub", "mul", "shl"):
            a, b = s.ex(i.ops[0], m), s.ex(i.ops[1], m)
            if op == "add": e = a + b
            elif op == "sub": e = a - b
            elif op == "mul":
                if a.const() is not None: e = b.mul(a.c)
                elif b.const() is not None: e = a.mul(b.c)
                else: return None
                if op == "mul" and m == "U" and False: pass
            else:
                if b.const() is None or b.c < 0 or b.c >= w: return None
                e = a.mul(1 << b.c)
            # negative constant addends in unsigned arithmetic: a + (2^w - c) is a - c when it does not wrap
            if op == "add" and m == "U":
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if y[0] == "c" and int(y[1]) < 0:
                        e = s.ex(x, m) + K(int(y[1]))
            # signed overflow is undefined behaviour in the source language: nsw arithmetic is exact
            if m == "S" and i.d.get("nsw") or m == "U" and i.d.get("nuw"): return e
            if s.fits(e, m, w, i.bb): return e
            return None
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "and", "or", "xor", "ashr"):
            mm = "U" if op in ("udiv", "urem", "lshr", "and", "or", "xor") else "S"
            c = s.ex(i.ops[1], mm).const()
            if op == "and" and i.ops[1][0] != "c" and i.ops[0][0] == "c": c = s.ex(i.ops[0], "U").const()
            a = s.ex(i.ops[0], mm)
            at = A((m, v))
            if c is not None and c >= 0:
                if op == "lshr" and c < w: d = 1 << c
                else: d = c
                if op in ("udiv", "lshr") and d > 0:
                    # d*q <= a <= d*q + d-1
                    s.defs[(m, v)] = [at, a - at.mul(d), at.mul(d) + K(d - 1) - a] + ([K((1 << w) - 1) - at])
                    return at
                if op == "sdiv" and d > 0 and s.nonneg(a, i.bb):
                    s.defs[(m, v)] = [at, a - at.mul(d), at.mul(d) + K(d - 1) - a]
                    return at
                if op == "urem" and d > 0:
                    q = ("Z", ("q", v)); s.defs[(m, v)] = [at, K(d - 1) - at, a - at]
                    # a = d*q + at
                    s.defs[(m, v)] += [a - A(q).mul(d) - at, A(q).mul(d) + at - a]
                    return at
                if op == "srem" and d > 0 and s.nonneg(a, i.bb):
                    s.defs[(m, v)] = [at, K(d - 1) - at, a - at]; return at
                if op == "and" and c > (1 << (w - 1)) and ((1 << w) - c) & ((1 << w) - c - 1) == 0:
                    g = (1 << w) - c; q = A(("Z", ("al", v)))          # a & ~(g-1): align down
                    s.defs[(m, v)] = [at, a - at, at + K(g - 1) - a, at - q.mul(g), q.mul(g) - at]
                    return at
                if op == "and":
                    s.defs[(m, v)] = [at, K(c) - at] + ([a - at] if True else [])
                    return at
            elif op == "urem":
                b = s.ex(i.ops[1], "U")
                s.defs[(m, v)] = [at, b - K(1) - at]
                if m == "U": return at
            return None
        if op == "phi":
            return s.phi(i, m)
        if op == "select":
            a, b = s.ex(i.ops[1], m), s.ex(i.ops[2], m)
            if a.key() == b.key(): return a
            return None
        if op == "freeze": return s.ex(i.ops[0], m)
        if i.is_call():
            k = s.call_key(i, m)
            if k is not None:
                if isinstance(k, E): return k
                return A(k)
            return None
        if op in ("load", "extractvalue"):
            k = s.call_key(i, m)
            if k is not None:
                return k if isinstance(k, E) else A(k)
            return None
        if op == "icmp" : return None
        return None
    def phi(s, i, m):
        """closed form of an induction variable, or a common value"""
        inc = s.f.phi_inc(i)
        v = ("v", i.i)
        if i.bb in s.loops:
            body = s.loops[i.bb]
            init = [x for x, b in inc if b not in body]
            step = [x for x, b in inc if b in body]
            if step and init:
                e0 = [s.ex(x, m) for x in init]
                if all(e.key() == e0[0].key() for e in e0):
                    # step values must be v + const
                    cs = {s.step_const(x, v, body) for x in step}
                    if len(cs) == 1 and None not in cs:
                        c = cs.pop()
                        e = e0[0] + A(("N", i.bb)).mul(c)
                        w = width(i.ty)
                        if (v, m) in s.prev and s.prev[(v, m)].key() == e.key(): return e
                        # exactness: the update never wraps; proved inductively with the closed form as hypothesis
                        sub = Lin(s.f, s.call_key, s.extra, s.f_loops)
                        sub.hyp = dict(s.hyp); sub.hyp[(v, m)] = e
                        if m == "S" and all(s.nsw_step(x, v, body) for x in step): return e
                        if sum(1 for k in s.hyp) < 3 and all(sub.rounds(lambda: sub.fits(e + K(c), m, w, s.def_block(x))) for x in step):
                            return e
            return None
        es = [s.ex(x, m) for x, b in inc if b in s.R]
        if es and all(e.key() == es[0].key() for e in es): return es[0]
        return None
    def def_block(s, x):
        i = s.f.inst(x)
        return i.bb if i is not None else 0
    def step_const(s, x, v, body, d=0):
        """x == v + const syntactically (through add/sub/phi inside the loop)"""
        if x == v: return 0
        i = s.f.inst(x)
        if i is None or i.bb not in body or d > 8: return None
        if i.op in ("add", "sub"):
            a, b = i.ops
            if b[0] == "c":
                r = s.step_const(a, v, body, d + 1)
                return None if r is None else r + (int(b[1]) if i.op == "add" else -int(b[1]))
            if a[0] == "c" and i.op == "add":
                r = s.step_const(b, v, body, d + 1)
                return None if r is None else r + int(a[1])
        if i.op == "phi":
            rs = {s.step_const(y, v, body, d + 1) for y, _ in s.f.phi_inc(i)}
            return rs.pop() if len(rs) == 1 else None
        return None
    def nsw_step(s, x, v, body, d=0):
        if x == v: return True
        i = s.f.inst(x)
        if i is None or i.bb not in body or d > 8: return False
        if i.op in ("add", "sub"):
            return bool(i.d.get("nsw")) and s.nsw_step(i.ops[0] if i.ops[1][0] == "c" else i.ops[1], v, body, d + 1)
        return i.op == "phi" and all(s.nsw_step(y, v, body, d + 1) for y, _ in s.f.phi_inc(i))
    def nonneg(s, e, block):
        if e.const() is not None: return e.c >= 0
        return entails(s.close(s.facts(block) + s.range_facts(e)), e)
    # ---- facts
    def dominating_edges(s, b):
        """(block, taken successor) pairs every path to b goes through"""
        f = s.f; out = []
        d = f.dom(); x = b
        while x is not None:
            p = d.get(x)
            if p is None: break
            t = f.blocks[p].term
            if t.op in ("br", "switch") and len(set(f.blocks[p].succ)) > 1:
                for z in set(f.blocks[p].succ):
                    if f.dominates(z, b) and all(q == p or f.dominates(z, q) for q in f.blocks[z].pred if q in s.R) and z != p:
                        out.append((p, z))
            x = p
        return out
    def facts(s, b):
        if b in s._bf: return s._bf[b]
        if s.depth == 0: return s.rounds(lambda: s.facts(b))
        if b in s.bfbusy:
            s.taint = True
            return []
        s.bfbusy.add(b); s.depth += 1
        try: out = s._facts(b)
        finally: s.bfbusy.discard(b); s.depth -= 1
        s._bf[b] = out
        return out
    def _facts(s, b):
        out = []
        for p, z in s.dominating_edges(b):
            t = s.f.blocks[p].term
            if t.op == "br": out += s.cond_facts(t.ops[0], z == t.d["succ"][0], p)
            elif t.op == "switch":
                vals = [tuple(c[0]) for c in t.d["cases"] if c[1] == z]
                if len(vals) == 1 and t.d["def"] != z:
                    out += s.cmp_facts("eq", t.ops[0], vals[0], p)
        out += s.extra(s, b)
        return out
    def cond_facts(s, c, truth, blk, d=0):
        i = s.f.inst(c)
        if i is None or d > 8: return []
        if i.op == "icmp":
            pred = i.d["pred"] if truth else INV[i.d["pred"]]
            return s.cmp_facts(pred, i.ops[0], i.ops[1], i.bb)
        if i.op == "xor" and i.ops[1] in (("c", "-1", 1), ("c", "1", 1)): return s.cond_facts(i.ops[0], not truth, blk, d + 1)
        if i.op == "select":
            a, b, c2 = i.ops
            if truth and c2[0] == "c" and c2[1] == "0": return s.cond_facts(a, True, blk, d + 1) + s.cond_facts(b, True, blk, d + 1)
            if not truth and b[0] == "c" and b[1] != "0": return s.cond_facts(a, False, blk, d + 1) + s.cond_facts(c2, False, blk, d + 1)
        if i.op == "and" and truth: return s.cond_facts(i.ops[0], True, blk, d + 1) + s.cond_facts(i.ops[1], True, blk, d + 1)
        if i.op == "or" and not truth: return s.cond_facts(i.ops[0], False, blk, d + 1) + s.cond_facts(i.ops[1], False, blk, d + 1)
        if i.op == "trunc" and i.ty == "i1" and s.f.inst(i.ops[0]) is not None and s.f.inst(i.ops[0]).op == "zext" and s.wty(s.f.inst(i.ops[0]).ops[0]) == 1: return s.cond_facts(i.ops[0], truth, blk, d + 1)
        if i.op == "zext" or i.op == "freeze": return s.cond_facts(i.ops[0], truth, blk, d + 1)
        if i.op == "phi":
            # boolean phi: only the incoming values compatible with the truth value
            inc = [(x, b) for x, b in s.f.phi_inc(i) if b in s.R]
            cand = [(x, b) for x, b in inc if not (x[0] == "c" and (x[1] != "0") != truth)]
            if len(cand) == 1:
                x, b = cand[0]
                return s.facts(b) + (s.cond_facts(x, truth, b, d + 1) if x[0] != "c" else []) + s.edge_facts(b, i.bb)
        return []
    def edge_facts(s, b, z):
        t = s.f.blocks[b].term
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            return s.cond_facts(t.ops[0], z == t.d["succ"][0], b)
        return []
    def cmp_facts(s, pred, a, b, blk):
        if s.wty(a) is None: return []
        out = []
        if pred in ("eq",):
            for m in "US":
                x, y = s.ex(a, m), s.ex(b, m); out += [x - y, y - x]
            return out
        if pred == "ne":
            x, y = s.u(a), s.u(b)
            if y.const() == 0: return [x - K(1)]
            if x.const() == 0: return [y - K(1)]
            return []
        m = "U" if pred[0] == "u" else "S"
        x, y = s.ex(a, m), s.ex(b, m)
        k = pred[1:]
        if k == "gt": return [x - y - K(1)]
        if k == "ge": return [x - y]
        if k == "lt": return [y - x - K(1)]
        if k == "le": return [y - x]
        return out
    def prove(s, goal, block, extra=()):
        """goal >= 0 holds whenever control is at the start of `block`"""
        if goal.const() is not None: return goal.c >= 0
        F = s.close(s.facts(block) + list(extra) + s.range_facts(goal))
        return entails(F, goal)
