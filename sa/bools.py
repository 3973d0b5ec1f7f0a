"""Must-analysis of branch outcomes: which boolean atoms (instruction, truth) are certain at a program point.
An atom is generated when control leaves a branch on it and killed when the instruction is executed again."""

def const(v): return int(v[1]) if v and v[0] == "c" else None
INVP = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge", "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
def cmpc(pred, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m
    sa = ua - (1 << w) if ua >> (w - 1) else ua
    sb = ub - (1 << w) if ub >> (w - 1) else ub
    return {"eq": ua == ub, "ne": ua != ub, "ugt": ua > ub, "uge": ua >= ub, "ult": ua < ub, "ule": ua <= ub,
            "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[pred]

TOP = None      # unreachable / impossible
def U(*xs):
    """union of facts; impossible if any part is"""
    r = frozenset()
    for x in xs:
        if x is TOP: return TOP
        r |= x
    return r
def meet(a, b): return b if a is TOP else a if b is TOP else a & b
class Must:
    def __init__(s, f):
        s.f = f; s.R = f.reach_entry()
        s.IN = {b: TOP for b in s.R}; s.IN[0] = frozenset()
        s._reach = {}
        order = s.rpo(); ch = True; n = 0
        while ch:
            ch = False; n += 1
            if n > 400: raise RuntimeError("must facts diverge")
            for b in order:
                if s.IN[b] is TOP: continue
                out = s.through(b, s.IN[b])
                for z in dict.fromkeys(f.blocks[b].succ):
                    e = U(out, s.edge(b, z, out))
                    if e is TOP: continue
                    old = s.IN[z]
                    new = e if old is TOP else old & e
                    if old is TOP or new != old: s.IN[z] = new; ch = True
    def rpo(s):
        seen = {0}; order = []; st = [(0, iter(s.f.blocks[0].succ))]
        while st:
            b, it = st[-1]
            for z in it:
                if z not in seen:
                    seen.add(z); st.append((z, iter(s.f.blocks[z].succ))); break
            else: order.append(b); st.pop()
        return order[::-1]
    def reach(s, b, avoid):
        k = (b, avoid)
        if k not in s._reach: s._reach[k] = s.f.reachable(b, frozenset([avoid]))
        return s._reach[k]
    def stale(s, j, X, at):
        """may instruction j run between a phi in block X and a use in block `at`?"""
        J = s.f.insts[j].bb
        if J == X: return True
        return J != at and J in s.reach(X, X) and (at in s.reach(J, X)) or (J == at and J in s.reach(X, X))
    def through(s, b, st, upto=None):
        ids = {i.i for i in s.f.blocks[b].insts[:upto]}
        return frozenset(a for a in st if a[0] not in ids)
    def edge(s, b, z, st):
        t = s.f.blocks[b].term
        if t.op == "br" and t.ops and len(set(t.d["succ"])) == 2:
            return s.implied(t.ops[0], z == t.d["succ"][0], b, 0, st)
        if t.op == "switch":
            vals = [int(c[0][1]) for c in t.d["cases"] if c[1] == z]
            if z == t.d["def"] and not vals:
                r = frozenset()
                for c in t.d["cases"]: r = U(r, s.implied_cmp("ne", t.ops[0], int(c[0][1]), b))
                return r
            if len(vals) == 1 and z != t.d["def"]: return s.implied_cmp("eq", t.ops[0], vals[0], b)
        return frozenset()
    def edge_out(s, b, z):
        """everything certain when control goes from block b to z"""
        st = s.IN.get(b)
        if st is TOP: return TOP
        o = s.through(b, st)
        return U(o, s.edge(b, z, o))
    def at(s, inst):
        """certain just before the instruction"""
        st = s.IN.get(inst.bb)
        if st is TOP or st is None: return TOP
        return s.through(inst.bb, st, inst.idx)
    def implied(s, v, truth, at, d=0, ctx=frozenset()):
        """atoms certain when boolean/integer v is (truth) non-zero / zero"""
        i = s.f.inst(v)
        if i is None or d > 40: return frozenset()
        r = frozenset([(i.i, truth)])
        if i.op == "xor" and const(i.ops[1]) in (-1, 1) and i.ty == "i1": return U(r, s.implied(i.ops[0], not truth, at, d + 1, ctx))
        if i.op in ("zext", "freeze", "sext"): return U(r, s.implied(i.ops[0], truth, at, d + 1, ctx))
        if i.op == "trunc" and i.ty == "i1": return U(r, s.implied(i.ops[0], truth, at, d + 1, ctx))
        if i.op == "and" and i.ty == "i8" and const(i.ops[1]) == 1: return U(r, s.implied(i.ops[0], truth, at, d + 1, ctx))
        if i.op == "and" and truth and i.ty == "i1": return U(r, s.implied(i.ops[0], True, at, d + 1, ctx), s.implied(i.ops[1], True, at, d + 1, ctx))
        if i.op == "or" and not truth: return U(r, s.implied(i.ops[0], False, at, d + 1, ctx), s.implied(i.ops[1], False, at, d + 1, ctx))
        if i.op == "and" and not truth and i.ty == "i1": return U(r, meet(s.implied(i.ops[0], False, at, d + 1, ctx), s.implied(i.ops[1], False, at, d + 1, ctx)))
        if i.op == "or" and truth: return U(r, meet(s.implied(i.ops[0], True, at, d + 1, ctx), s.implied(i.ops[1], True, at, d + 1, ctx)))
        if i.op == "icmp" and const(i.ops[1]) is not None:
            return U(r, s.implied_cmp(i.d["pred"] if truth else INVP[i.d["pred"]], i.ops[0], const(i.ops[1]), at, d + 1, ctx))
        if i.op == "select" or i.op == "phi":
            return U(r, s.choice(i, "ne" if truth else "eq", 0, at, d + 1, ctx))
        return r
    def implied_cmp(s, pred, v, c, at, d=0, ctx=frozenset()):
        i = s.f.inst(v)
        if i is None or d > 40: return frozenset()
        if pred == "ne" and c == 0 or pred == "eq" and c == 1 and i.ty == "i1": return s.implied(v, True, at, d + 1, ctx)
        if pred == "eq" and c == 0: return s.implied(v, False, at, d + 1, ctx)
        if i.op in ("zext", "freeze"): 
            src = s.f.inst(i.ops[0])
            if src is not None and src.ty == "i1":
                t0, t1 = cmpc(pred, 0, c, 32), cmpc(pred, 1, c, 32)
                if t1 and not t0: return s.implied(i.ops[0], True, at, d + 1, ctx)
                if t0 and not t1: return s.implied(i.ops[0], False, at, d + 1, ctx)
                if not t0 and not t1: return TOP
            return s.implied_cmp(pred, i.ops[0], c, at, d + 1, ctx) if pred in ("eq", "ne") else frozenset()
        if i.op in ("select", "phi"): return s.choice(i, pred, c, at, d + 1, ctx)
        return frozenset([(i.i, pred, c)])
    def choice(s, i, pred, c, at, d, ctx=frozenset()):
        """select/phi compared with a constant: meet over the alternatives that can satisfy it"""
        if i.op == "select":
            alts = [(i.ops[1], s.implied(i.ops[0], True, at, d, ctx)), (i.ops[2], s.implied(i.ops[0], False, at, d, ctx))]
        else:
            alts = []
            for v, b in s.f.phi_inc(i):
                if b not in s.R or not s.consistent(i, b, ctx): continue
                st = s.IN.get(b)
                if st is TOP: continue
                o = s.through(b, st)
                alts.append((v, U(o, s.edge(b, i.bb, o))))
        res = TOP
        w = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
        for v, st in alts:
            if st is TOP: continue
            k = const(v)
            if k is not None:
                if not cmpc(pred, k, c, w): continue
                e = st
            else: e = U(st, s.implied_cmp(pred, v, c, at, d + 1, st))
            if e is TOP: continue
            res = e if res is TOP else res & e
        if res is TOP: return TOP
        if i.op == "phi": res = frozenset(a for a in res if not s.stale(a[0], i.bb, at))
        return res
    def consistent(s, i, b, ctx):
        """can the phi's block have been entered from b, given what is known about its other phis?"""
        for a in ctx:
            j = s.f.insts[a[0]]
            if j.op != "phi" or j.bb != i.bb: continue
            k = next((const(v) for v, p in s.f.phi_inc(j) if p == b), None)
            if k is None: continue
            w = int(j.ty[1:]) if j.ty[1:].isdigit() else 64
            ok = (k != 0) == a[1] if len(a) == 2 else cmpc(a[1], k, a[2], w)
            if not ok: return False
        return True

    def cases(s, v, pred, c, at, st=None, d=0):
        """the alternatives on which value v (used in block `at`) satisfies `v pred c`: list of (facts, block)"""
        st = s.IN[at] if st is None else st
        if st is TOP: return []
        k = const(v)
        i = s.f.inst(v)
        w = int(i.ty[1:]) if i is not None and i.ty[1:].isdigit() else v[2] if k is not None else 64
        if k is not None: return [(st, at)] if cmpc(pred, k, c, w) else []
        if i is None or d > 30:
            return [(st, at)]
        out = []
        if i.op == "phi" and not s.f.loops().get(i.bb):
            for x, b in s.f.phi_inc(i):
                if b not in s.R: continue
                e = s.edge_out(b, i.bb)
                if e is TOP: continue
                # what is known at the use about other phis of the block excludes some edges
                if not s.consistent(i, b, st): continue
                keep = frozenset(a for a in st if not (s.f.insts[a[0]].op == "phi" and s.f.insts[a[0]].bb == i.bb))
                out += s.cases(x, pred, c, b, e | keep, d + 1)
            return out
        if i.op == "select":
            for x, tr in ((i.ops[1], True), (i.ops[2], False)):
                e = U(st, s.implied(i.ops[0], tr, at, 0, st))
                if e is not TOP: out += s.cases(x, pred, c, at, e, d + 1)
            return out
        if i.op in ("zext", "sext", "freeze") and pred in ("eq", "ne") and c == 0: return s.cases(i.ops[0], pred, c, at, st, d + 1)
        if i.op == "trunc" and i.ty == "i1": return s.cases(i.ops[0], pred, c, at, st, d + 1)
        if i.ty == "i1" and pred in ("eq", "ne") and c == 0:
            tr = pred == "ne"
            if i.op == "and" and tr or i.op == "or" and not tr:
                for e, b in s.cases(i.ops[0], pred, c, at, st, d + 1): out += s.cases(i.ops[1], pred, c, at, e, d + 1)
                return out
            if i.op in ("and", "or"):
                return s.cases(i.ops[0], pred, c, at, st, d + 1) + s.cases(i.ops[1], pred, c, at, st, d + 1)
            if i.op == "xor" and const(i.ops[1]) in (1, -1): return s.cases(i.ops[0], "eq" if tr else "ne", 0, at, st, d + 1)
            if i.op == "icmp" and const(i.ops[1]) is not None:
                j = s.f.inst(i.ops[0])
                if j is not None and j.op in ("phi", "select", "zext"): return s.cases(i.ops[0], i.d["pred"] if tr else INVP[i.d["pred"]], const(i.ops[1]), at, st, d + 1)
        e = U(st, s.implied_cmp(pred, v, c, at, 0, st))
        return [] if e is TOP else [(e, at)]
