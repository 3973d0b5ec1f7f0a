"""Path-sensitive value numbering of small leaf functions: every control path of the function (each block at most twice)
is followed with the branch outcomes it implies and with canonical value terms for memory words and GMP numbers.
Arithmetic is normalised to polynomials over the input numbers; nothing is evaluated and no solver is involved."""
from . import gmp, ir
from .ir import short, Broken, tuplify
from .bools import cmpc, INVP

# ------------------------------------------------------------------ polynomials
def P(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1: return m[0]
    return ("P", tuple(sorted(d.items(), key=repr)))
def pd(t):
    return dict(t[1]) if t[0] == "P" else {(t,): 1}
def padd(a, b, k=1):
    d = pd(a)
    for m, c in pd(b).items(): d[m] = d.get(m, 0) + k * c
    return P(d)
def pmul(a, b):
    d = {}
    for m, c in pd(a).items():
        for n, e in pd(b).items():
            q = tuple(sorted(m + n, key=repr)); d[q] = d.get(q, 0) + c * e
    return P(d)
def pk(k): return P({(): k}) if k else ("P", ())
def kval(t):
    """integer value of a constant polynomial"""
    if t[0] != "P": return None
    if not t[1]: return 0
    return t[1][0][1] if len(t[1]) == 1 and t[1][0][0] == () else None
def pneg(t): return padd(pk(0), t, -1)
def num(t, signed=True, w=64):
    """polynomial of a scalar term"""
    if t[0] == "k":
        k = t[1] & ((1 << w) - 1)
        return pk(k - (1 << w) if signed and k >> (w - 1) else k)
    return ("num", t, signed)

def width(ty): return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 64

class Path:
    __slots__ = ("env", "mem", "facts", "visits", "events", "blocks", "rng")
    def __init__(s): s.env = {}; s.mem = {}; s.facts = {}; s.visits = {}; s.events = []; s.blocks = []; s.rng = {}
    def copy(s):
        p = Path(); p.env = dict(s.env); p.mem = dict(s.mem); p.facts = dict(s.facts); p.visits = dict(s.visits); p.events = list(s.events); p.blocks = list(s.blocks); p.rng = dict(s.rng)
        return p

class Paths:
    def __init__(s, f, sigs=None, alias=None, at=None, maxpaths=60000, visits=2, pure=(), distinct=True, hook=None, unwind=False):
        s.f = f; s.sigs = sigs or {}; s.alias = alias or {}; s.n = 0; s.max = maxpaths; s.visits = visits; s.pure = pure; s.done = []; s.hook = hook; s.unwind = unwind
        s.bo = {}
        s.go(Path(), 0, None)
    # -------------------------------------------------------------- values
    def obj(s, p, v):
        """(root, offset) of a pointer along this path"""
        off = 0
        for _ in range(80):
            i = s.f.inst(v)
            if i is None:
                if v and v[0] == "g": return (("g", v[1]), off + v[2] if off is not None else None)
                v = s.alias.get(v, v)
                if v[0] == "a": return (v, off)
                return (v, off)
            t = p.env.get(i.i)
            if t is not None and t[0] == "ptr": return (t[1], (t[2] + off) if t[2] is not None and off is not None else None)
            if t is not None: return (t, off)
            return (v, off)
        return (v, None)
    def val(s, p, v, w=64):
        if not v: return ("?",)
        if v[0] == "c": 
            k = int(v[1]); return ("k", k & ((1 << w) - 1), w) if False else ("k", k)
        if v == ("n",): return ("k", 0)
        i = s.f.inst(v)
        if i is not None: return p.env.get(i.i, ("v", i.i))
        if v[0] == "a" and s.f.params[v[1]]["ty"] == "ptr":
            return ("ptr",) + s.obj(p, v)
        if v[0] == "g": return ("ptr", ("g", v[1]), v[2])
        return v
    def mpz(s, p, v):
        r = s.obj(p, v); return s.mget(p, r)
    def mget(s, p, key):
        t = p.mem.get(key)
        if t is None: return ("in",) + key
        return t
    def mput(s, p, key, t): p.mem[key] = t
    # -------------------------------------------------------------- conditions
    def decide(s, p, t, w=1):
        """[(path, truth)] of boolean term t"""
        if t[0] == "k": return [(p, bool(t[1] & 1) if w == 1 else bool(t[1]))]
        if t[0] == "not": return [(q, not b) for q, b in s.decide(p, t[1])]
        if t[0] in ("zext", "sext", "freeze"): return s.decide(p, t[1])
        if t[0] in ("and", "or") and t[3] == 1:
            out = []
            for q, b in s.decide(p, t[1]):
                if b == (t[0] == "or"): out.append((q, b))
                else: out += s.decide(q, t[2])
            return out
        if t[0] == "icmp":
            k = s.known(p, t)
            if k is not None: return [(p, k)]
            out = []
            for b in (True, False):
                q = p.copy()
                if s.assume(q, t, b): out.append((q, b))
            return out
        if t in p.facts: return [(p, p.facts[t])]
        out = []
        for b in (True, False):
            q = p.copy(); q.facts[t] = b; out.append((q, b))
        return out
    def known(s, p, t):
        pred, a, b, w = t[1:5]
        if a[0] == "k" and b[0] == "k": return cmpc(pred, a[1], b[1], w)
        if a == b: return pred in ("eq", "ule", "uge", "sle", "sge")
        if t in p.facts: return p.facts[t]
        n = ("icmp", INVP[pred], a, b, w)
        if n in p.facts: return not p.facts[n]
        if b[0] == "k":
            lo, hi, ne = p.rng.get(a, (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset()))
            k = b[1] - (1 << w) if b[1] >> (w - 1) and b[1] > 0 else b[1]
            if pred == "eq":
                if k < lo or k > hi or k in ne: return False
                if lo == hi == k: return True
            if pred == "ne":
                if k < lo or k > hi or k in ne: return True
                if lo == hi == k: return False
            if pred == "slt": return True if hi < k else False if lo >= k else None
            if pred == "sle": return True if hi <= k else False if lo > k else None
            if pred == "sgt": return True if lo > k else False if hi <= k else None
            if pred == "sge": return True if lo >= k else False if hi < k else None
        if a[0] == "ptr" and b == ("k", 0) and pred in ("eq", "ne"): return pred == "ne"
        return None
    def assume(s, p, t, b):
        pred, x, y, w = t[1:5]
        p.facts[t] = b
        if y[0] != "k": return True
        pr = pred if b else INVP[pred]
        lo, hi, ne = p.rng.get(x, (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset()))
        k = y[1] - (1 << w) if y[1] >> (w - 1) and y[1] > 0 else y[1]
        if pr == "eq": lo, hi = max(lo, k), min(hi, k)
        elif pr == "ne": ne = ne | {k}
        elif pr == "slt": hi = min(hi, k - 1)
        elif pr == "sle": hi = min(hi, k)
        elif pr == "sgt": lo = max(lo, k + 1)
        elif pr == "sge": lo = max(lo, k)
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        p.rng[x] = (lo, hi, ne)
        return lo <= hi
    # -------------------------------------------------------------- control
    def go(s, p, b, frm):
        stack = [(p, b, frm, 0)]
        while stack:
            p, b, frm, idx = stack.pop()
            if idx == 0:
                if p.visits.get(b, 0) >= s.visits: continue
                p.visits[b] = p.visits.get(b, 0) + 1; p.blocks.append(b)
                # phis read their inputs simultaneously
                new = {}
                for i in s.f.blocks[b].insts:
                    if i.op != "phi": break
                    for v, q in s.f.phi_inc(i):
                        if q == frm: new[i.i] = s.val(p, v, width(i.ty)); break
                p.env.update(new)
            r = s.block(p, b, idx)
            for q, z, fr, ix in r: stack.append((q, z, fr, ix))
            s.n += len(r)
            if s.n > s.max: raise Broken("too many control paths in %s" % s.f.dem)
    def block(s, p, b, idx):
        B = s.f.blocks[b].insts
        for k in range(idx, len(B)):
            i = B[k]; op = i.op
            if op == "phi": continue
            if op == "br":
                su = i.d["succ"]
                if not i.ops or len(su) == 1: return [(p, su[0], b, 0)]
                return [(q, su[0] if t else su[1], b, 0) for q, t in s.decide(p, s.val(p, i.ops[0], 1))]
            if op == "switch":
                t = s.val(p, i.ops[0]); out = []; w = 64
                rest = p
                for c in i.d["cases"]:
                    ct = ("icmp", "eq", t, ("k", int(c[0][1])), 32)
                    nr = None
                    for q, tr in s.decide(rest, ct):
                        if tr: out.append((q, c[1], b, 0))
                        else: nr = q
                    rest = nr
                    if rest is None: break
                if rest is not None: out.append((rest, i.d["def"], b, 0))
                return out
            if op == "ret":
                p.events.append(("ret", i, s.val(p, i.ops[0]) if i.ops else None))
                s.done.append(p); return []
            if op == "unreachable" or op == "resume": 
                p.events.append((op, i)); 
                if s.unwind: s.done.append(p)
                return []
            if op == "select":
                r = s.decide(p, s.val(p, i.ops[0], 1))
                if len(r) == 1:
                    p, t = r[0]; p.env[i.i] = s.val(p, i.ops[1] if t else i.ops[2], width(i.ty)); continue
                out = []
                for q, t in r:
                    q.env[i.i] = s.val(q, i.ops[1] if t else i.ops[2], width(i.ty)); out.append((q, b, None, k + 1))
                return out
            if op in ("call", "invoke"):
                s.call(p, i)
                if op == "invoke": return [(p, i.d["norm"], b, 0)]
                continue
            s.step(p, i)
        return []
    def step(s, p, i):
        op = i.op; w = width(i.ty)
        if op == "extractvalue":
            t = s.val(p, i.ops[0])
            if t[0] == "asm": p.env[i.i] = ("ev", t, tuple(i.d["idx"])); return
        if op == "alloca": p.env[i.i] = ("ptr", ("v", i.i), 0); return
        if op == "getelementptr":
            base = s.val(p, i.ops[0])
            if base[0] != "ptr": base = ("ptr", base, 0)
            if "off" in i.d: o = base[2] + i.d["off"] if base[2] is not None else None; p.env[i.i] = ("ptr", base[1], o); return
            if "voff" in i.d and base[2] is not None:
                o = base[2] + i.d["coff"]; ok = True
                for x, kk in i.d["voff"]:
                    t = s.val(p, tuplify(x))
                    if t[0] == "k": o += t[1] * kk
                    else: ok = False
                if ok: p.env[i.i] = ("ptr", base[1], o); return
                p.env[i.i] = ("ptr", ("elem", base, tuple((s.val(p, tuplify(x)), kk) for x, kk in i.d["voff"]), i.d["coff"]), 0); return
            p.env[i.i] = ("ptr", ("v", i.i), 0); return
        if op == "load":
            r, o = s.obj2(p, i.ops[0])
            p.env[i.i] = s.load(p, r, o, i); return
        if op == "store":
            v = s.val(p, i.ops[0]); r, o = s.obj2(p, i.ops[1])
            if o is not None and o >= 4 and (r, o - 4) in p.mem or v[0] in ("msize", "neg", "abs"):
                T = s.mget(p, (r, o - 4))
                if v == ("sub", ("k", 0), ("msize", T), 32): p.mem[(r, o - 4)] = pneg(T); return
                if v == ("msize", T): return
            p.mem[(r, o)] = ("w", v); p.events.append(("store", i, r, o, v)); return
        if op == "icmp":
            a, b = s.val(p, i.ops[0]), s.val(p, i.ops[1])
            pr = i.d["pred"]; ww = s.owidth(i)
            if a[0] == "k" and b[0] != "k":
                a, b = b, a; pr = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pr, pr)
            p.env[i.i] = s.fold(p, ("icmp", pr, a, b, ww)); return
        if op in ("zext", "sext", "trunc", "freeze"):
            a = s.val(p, i.ops[0]); 
            if op == "trunc" and a[0] == "k": p.env[i.i] = ("k", a[1] & ((1 << w) - 1)); return
            if op == "trunc" and a[0] in ("zext", "sext") and a[2] == w: p.env[i.i] = a[1]; return
            if a[0] == "k": p.env[i.i] = a; return
            if op == "freeze": p.env[i.i] = a; return
            sw = s.vwidth(i.ops[0])
            p.env[i.i] = (op, a, sw) if op != "trunc" else ("trunc", a, w); return
        if op == "xor" and i.ty == "i1" and i.ops[1][0] == "c": p.env[i.i] = ("not", s.val(p, i.ops[0], 1)); return
        if op in ("ptrtoint", "inttoptr", "bitcast"): p.env[i.i] = s.val(p, i.ops[0]); return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = s.val(p, i.ops[0]), s.val(p, i.ops[1])
            if a[0] == "k" and b[0] == "k":
                m = (1 << w) - 1; x, y = a[1] & m, b[1] & m
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y, "shl": x << (y & 127), "lshr": x >> (y & 127)}.get(op)
                if r is not None: p.env[i.i] = ("k", r & m); return
                if op in ("udiv", "urem") and y: p.env[i.i] = ("k", x // y if op == "udiv" else x % y); return
            if b == ("k", 0) and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): p.env[i.i] = a; return
            if a == ("k", 0) and op in ("add", "or", "xor"): p.env[i.i] = b; return
            if op in ("add", "mul", "and", "or", "xor") and repr(a) > repr(b): a, b = b, a
            p.env[i.i] = (op, a, b, w); return
        p.env[i.i] = (op, i.i) + tuple(s.val(p, o) for o in i.ops)
    def vwidth(s, v):
        i = s.f.inst(v)
        if i is not None: return width(i.ty)
        if v[0] == "a": return width(s.f.params[v[1]]["ty"])
        return 64
    def owidth(s, i):
        for o in i.ops:
            j = s.f.inst(o)
            if j is not None: return width(j.ty)
            if o[0] == "a": return width(s.f.params[o[1]]["ty"])
        return 64
    def fold(s, p, t):
        """simplify comparisons of widened values and record constants"""
        pred, a, b, w = t[1:5]
        if a[0] in ("zext", "sext") and b[0] == "k" and a[2] == 1:
            v1 = 1 if a[0] == "zext" else -1
            x, y = cmpc(pred, 0, b[1], w), cmpc(pred, v1, b[1], w)
            if x == y: return ("k", int(x))
            return a[1] if y else ("not", a[1])
        if a[0] in ("zext", "sext") and b[0] == "k" and (pred in ("eq", "ne") or a[0] == "sext" and pred[0] == "s" or a[0] == "zext") and 0 <= b[1] < (1 << (a[2] - 1)): return ("icmp", pred if a[0] == "sext" or pred in ("eq", "ne") else "u" + pred[1:], a[1], b, a[2])
        if a[0] == "k" and b[0] == "k": return ("k", int(cmpc(pred, a[1], b[1], w)))
        if w == 1 and b[0] == "k" and pred in ("eq", "ne"): return a if (pred == "ne") == (b[1] & 1 == 0) else ("not", a)
        return t
    def obj2(s, p, v):
        t = s.val(p, v)
        if t[0] == "ptr": return t[1], t[2]
        return t, 0
    def load(s, p, r, o, i):
        t = p.mem.get((r, o))
        if t is not None and t[0] == "w": return t[1]
        if o is not None and i.ty == "i32" and (t is None):
            if o >= 4 and ((r, o - 4) in p.mem and p.mem[(r, o - 4)][0] != "w" or s.ismpz(r, o - 4)): return ("msize", s.mget(p, (r, o - 4)))
        if o is not None and i.ty == "ptr" and o >= 8 and t is None and ((r, o - 8) in p.mem and p.mem[(r, o - 8)][0] != "w" or s.ismpz(r, o - 8)): return ("limbs", s.mget(p, (r, o - 8)))
        if t is not None: return ("ld", t, i.ty)
        return ("ld", ("in", r, o), i.ty)
    def ismpz(s, r, o):
        """input objects whose size field is read are numbers when a GMP call also uses them"""
        if not hasattr(s, "_mz"):
            s._mz = set()
            for c in s.f.calls():
                ro = gmp.roles(c)
                for v, k in ro or []:
                    if k in "oibICp": s._mz.add(s.f.base_off(v))
        r2 = next((x for x in (r,) if (x, o) in s._mz), None)
        return r2 is not None or any(a == (r, o) for a in s.extra_mpz) if hasattr(s, "extra_mpz") else r2 is not None
    # -------------------------------------------------------------- calls
    def call(s, p, i):
        c = i.callee or ""; d = i.dem
        if c.startswith("llvm."):
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                a, b = s.obj2(p, i.args[0]), s.obj2(p, i.args[1]); n = s.val(p, i.args[2])
                if n[0] == "k" and a[1] is not None and b[1] is not None:
                    for (r, o), t in list(p.mem.items()):
                        if r == a[0] and o is not None and a[1] <= o < a[1] + n[1]: del p.mem[(r, o)]
                    hit = False
                    for (r, o), t in list(p.mem.items()):
                        if r == b[0] and o is not None and b[1] <= o < b[1] + n[1]: p.mem[(a[0], a[1] + o - b[1])] = t; hit = True
                    if not hit: p.mem[a] = ("copy", ("in",) + b, n[1])
                else: p.mem[a] = ("copyv", ("in",) + b, n)
                p.events.append(("call", i, [s.val(p, x) for x in i.args]))
            elif c.startswith("llvm.memset"):
                p.events.append(("call", i, [s.val(p, x) for x in i.args]))
            elif c.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin", "llvm.abs", "llvm.expect")): p.env[i.i] = (c.split(".")[1],) + tuple(s.val(p, x) for x in i.args)
            return
        if s.hook:
            r = s.hook(s, p, i)
            if r is not None: return
        args = [s.val(p, a) for a in i.args]
        ro = gmp.roles(i)
        if ro is None and (c in s.sigs or short(d).split("[")[0] in s.sigs):
            sg = s.sigs.get(c, s.sigs.get(short(d).split("[")[0])); ro = list(zip(i.args, sg))
            nm = short(d)
        elif ro is not None: nm = c.replace("__gmpz_", "")
        if ro is None:
            p.events.append(("call", i, args)); p.env[i.i] = ("call", short(d), tuple(args))
            # unknown: everything reachable through pointer arguments may change
            if not (short(d) in s.pure or c in ("__gmpn_perfect_square_p", "memcmp", "strlen")):
                for a in i.args:
                    t = s.val(p, a)
                    if t[0] == "ptr":
                        for key in [k for k in p.mem if k[0] == t[1]]: p.mem[key] = ("havoc", i.i, key)
                        p.mem.setdefault((t[1], t[2]), ("havoc", i.i, (t[1], t[2])))
                p.env[i.i] = ("ret", i.i, short(d), tuple(args))
            return
        ins = []
        for a, k in ro:
            if k in "ib": ins.append(s.mget(p, s.obj2(p, a)))
            elif k == "n": ins.append(s.val(p, a))
            elif k == "R": ins.append(s.val(p, a))
        p.events.append(("call", i, args, ins))
        outs = [s.obj2(p, a) for a, k in ro if k in "obpI" and s.val(p, a) != ("k", 0)]
        res = s.arith(nm, i, ins, args, p)
        if res is not None:
            if isinstance(res, list):
                for o, t in zip(outs, res): s.mput(p, o, t)
            else: s.mput(p, outs[0], res)
        else:
            n = 0
            for a, k in ro:
                if k in "obpI":
                    if s.val(p, a) != ("k", 0): s.mput(p, s.obj2(p, a), (nm, n) + tuple(ins))
                    n += 1
                elif k == "W":
                    t = s.val(p, a); p.mem[(t[1], t[2]) if t[0] == "ptr" else (t, 0)] = ("w", (nm, "W", i.i))
        p.env[i.i] = s.retval(nm, i, ins, args)
    def arith(s, nm, i, ins, args, p):
        if nm == "init" or nm == "init2": return pk(0)
        if nm == "inits": return [pk(0)] * 99
        if nm in ("set", "init_set", "set_d"): return ins[0]
        if nm in ("set_ui", "init_set_ui"): return num(ins[0], False)
        if nm in ("set_si", "init_set_si"): return num(ins[0], True)
        if nm == "add": return padd(ins[0], ins[1])
        if nm == "sub": return padd(ins[0], ins[1], -1)
        if nm == "mul": return pmul(ins[0], ins[1])
        if nm == "neg": return pneg(ins[0])
        if nm == "add_ui": return padd(ins[0], num(ins[1], False))
        if nm == "sub_ui": return padd(ins[0], num(ins[1], False), -1)
        if nm == "ui_sub": return padd(num(ins[0], False), ins[1], -1)
        if nm == "mul_ui": return pmul(ins[0], num(ins[1], False))
        if nm == "mul_si": return pmul(ins[0], num(ins[1], True))
        if nm == "mul_2exp" and ins[1][0] == "k": return pmul(ins[0], pk(1 << ins[1][1]))
        if nm == "pow_ui" and ins[1][0] == "k" and ins[1][1] < 6:
            r = pk(1)
            for _ in range(ins[1][1]): r = pmul(r, ins[0])
            return r
        if nm == "addmul": return padd(ins[0], pmul(ins[1], ins[2]))
        if nm == "submul": return padd(ins[0], pmul(ins[1], ins[2]), -1)
        if nm == "addmul_ui": return padd(ins[0], pmul(ins[1], num(ins[2], False)))
        if nm == "submul_ui": return padd(ins[0], pmul(ins[1], num(ins[2], False)), -1)
        if nm == "swap": return [ins[1], ins[0]]
        if nm in ("gcd", "lcm"): return (nm, 0) + tuple(sorted(ins, key=repr))
        if nm in ("tdiv_qr", "fdiv_qr", "cdiv_qr"): return [(nm[:5] + "q", 0) + tuple(ins), (nm[:5] + "r", 0) + tuple(ins)]
        if nm == "mod": return ("fdiv_r", 0) + tuple(ins)
        if nm == "divexact": return ("divexact", 0) + tuple(ins)
        if nm == "powm": return ("powm", 0) + tuple(ins)
        if nm == "powm_ui": return ("powm", 0, ins[0], num(ins[1], False), ins[2])
        return None
    def retval(s, nm, i, ins, args): return ("call", nm) + tuple(ins) if i.callee and i.callee.startswith("__gmp") else ("ret", i.i, nm, tuple(args))

# ------------------------------------------------------------------ relations between numbers known on a path
FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
NEG = {"lt": "ge", "gt": "le", "le": "gt", "ge": "lt", "eq": "ne", "ne": "eq"}
def relations(p):
    """set of (op, A, B) between GMP numbers (('abs',X) for absolute values) certain on the path"""
    out = set()
    def add(op, a, b):
        out.add((op, a, b)); out.add((FLIP[op], b, a))
    for t, (lo, hi, ne) in p.rng.items():
        if t[0] == "msize": a, b = t[1], pk(0)
        elif t[0] == "call" and t[1] == "cmp": a, b = t[2], t[3]
        elif t[0] == "call" and t[1] == "cmpabs": a, b = ("abs", t[2]), ("abs", t[3])
        elif t[0] == "call" and t[1] == "cmp_ui": a, b = t[2], num(t[3], False)
        elif t[0] == "call" and t[1] == "cmp_si": a, b = t[2], num(t[3], True)
        elif t[0] == "call" and t[1] == "cmpabs_ui": a, b = ("abs", t[2]), num(t[3], False)
        else: continue
        if lo == 0 == hi: add("eq", a, b)
        else:
            if lo >= 0: add("ge", a, b)
            if hi <= 0: add("le", a, b)
            if lo > 0: add("gt", a, b)
            if hi < 0: add("lt", a, b)
            if 0 in ne or lo > 0 or hi < 0: add("ne", a, b)
    return out
def holds(rel, op, a, b):
    imp = {"lt": ("lt",), "gt": ("gt",), "le": ("le", "lt", "eq"), "ge": ("ge", "gt", "eq"), "eq": ("eq",), "ne": ("ne", "lt", "gt")}[op]
    if any((o, a, b) in rel for o in imp): return True
    if op == "eq": return ("le", a, b) in rel and ("ge", a, b) in rel
    if op == "lt": return ("le", a, b) in rel and ("ne", a, b) in rel
    if op == "gt": return ("ge", a, b) in rel and ("ne", a, b) in rel
    # comparisons of a number with neighbouring constants
    kb = kval(b)
    if kb is not None:
        for o, x, y in rel:
            if x != a: continue
            ky = kval(y)
            if ky is None: continue
            if op in ("ge", "gt", "ne"):
                m = ky + (1 if o == "gt" else 0) if o in ("ge", "gt", "eq") else None
                if m is not None and (m >= kb if op == "ge" else m > kb): return True
            if op in ("le", "lt", "ne"):
                m = ky - (1 if o == "lt" else 0) if o in ("le", "lt", "eq") else None
                if m is not None and (m <= kb if op == "le" else m < kb): return True
    return False
