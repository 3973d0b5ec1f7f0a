"""Exploration of one function's paths under an assumption about what its environment answers ("a world"): constants
and booleans are propagated, branches on known values are followed one way only, everything else both ways.
A world decides what calls and loads answer and what is remembered along a path."""
from .order import dispatch

W = {1: 1, 8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}

def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else None

def signed(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def binop(op, a, b, w):
    m = (1 << w) - 1
    if op == "add": return (a + b) & m
    if op == "sub": return (a - b) & m
    if op == "mul": return (a * b) & m
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & m if b < w else None
    if op == "lshr": return a >> b if b < w else None
    if op == "ashr": return (signed(a, w) >> b) & m if b < w else None
    if op == "udiv": return a // b if b else None
    if op == "urem": return a % b if b else None
    if op in ("sdiv", "srem"):
        x, y = signed(a, w), signed(b, w)
        if not y: return None
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    return None

def cmp(p, a, b, w):
    if p == "eq": return int(a == b)
    if p == "ne": return int(a != b)
    if p[0] == "s": a, b = signed(a, w), signed(b, w)
    return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]])

def flat(vs):
    r = []
    for v in vs:
        if v and v[0] == "A": r += flat(v[1:])
        elif v: r.append(v)
    return r
_pm = {}
def params(dem):
    """parameter types of a demangled name"""
    if dem not in _pm: _pm[dem] = _params(dem)
    return _pm[dem]
def _params(dem):
    d = dem.replace("operator()", "operator@@").replace("operator<<", "operator@@").replace("operator->", "operator@@").replace("operator<", "operator@").replace("operator>", "operator@").replace("(anonymous namespace)", "@anon")
    depth = 0; st = None
    for k, c in enumerate(d):
        if c in "<{[": depth += 1
        elif c in ">}]": depth -= 1
        elif c == "(" and depth == 0: st = k; break
    if st is None: return None
    out = []; cur = ""; depth = 0
    for c in d[st + 1:]:
        if c in "<{[(": depth += 1
        elif c in ">}])":
            if c == ")" and depth == 0: break
            depth -= 1
        if c == "," and depth == 0: out.append(cur); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur)
    return out

class World:
    """subclass and override: answer(i, st), edge(b, z, st), at(i, st)"""
    limit = 200000
    ints = True
    def __init__(s, f):
        s.f = f; s.params = {}; s._live = None; s._phi = {}
        s.allo = {("v", i.i): i for i in f.all() if i.op == "alloca"}
        s.disp = {p.i for v in dispatch(f).values() for p in v}
        s.heads = f.loops()
        s.found = []
        s.stores = {}
        for i in f.all():
            if i.op == "store":
                b = f.base_off(i.ops[1])[0]
                if b in s.allo: s.stores[b[1]] = s.stores.get(b[1], 0) + 1
        s.n = 0
    # hooks -------------------------------------------------------------
    def start(s): return {}
    def answer(s, i, mem, kn):
        """outcomes of a call or load: None (unknown, nothing remembered) or [(value or None, mem)]"""
        return None
    def edge(s, b, z, mem, env): return mem
    def at(s, i, mem): pass
    def forced(s, i): return None
    # -------------------------------------------------------------------
    def slot(s, v):
        b, off = s.f.base_off(v)
        if b in s.allo and isinstance(off, int): return ("m", b[1], off)
        return None
    def run(s, b0=0):
        f = s.f
        m0 = s.start()
        st = [(b0, None, frozenset(m0.items()), frozenset())]; seen = set(st)
        useful = {}; s.seen = seen
        while st:
            b, pred, mem, env = st.pop()
            s.n += 1
            if s.n > s.limit: raise RuntimeError("too many states in " + f.short)
            env = dict(env); mem = dict(mem); blk = f.blocks[b]
            new = {}
            for i in blk.insts:
                if i.op != "phi": break
                k = next((s.val(v, env) for v, pb in f.phi_inc(i) if pb == pred), None)
                fo = s.forced(i)
                if fo is not None: k = fo
                elif b in s.heads and k is not None and k > 1 and i.i not in s.disp: k = None
                new[("v", i.i)] = k
            for k, v in new.items():
                env.pop(k, None)
                if v is not None and (s.ints or (width(f.insts[k[1]].ty) or 64) <= 8 or k[1] in s.disp): env[k] = v
            if b in s.heads:
                for k in [k for k, v in env.items() if k[0] == "m" and v > 1 and s.stores.get(k[1], 0) != 1]: del env[k]
            live = [(mem, env)]
            for i in blk.insts:
                if i.op == "phi": continue
                nl = []
                for mm, e in live: nl += s.step(i, mm, e)
                live = nl
                if not live: break
            t = blk.term
            for mm, e in live:
                full = e
                for z in s.succ(t, full, mm):
                    lv = s.livein(b, z)
                    keep = {k: v for k, v in e.items() if k[0] != "v" or k in lv}
                    m2 = s.edge(b, z, mm, full)
                    if m2 is None: continue
                    x = (z, b, frozenset(m2.items()), frozenset(keep.items()))
                    if x not in seen: seen.add(x); st.append(x)
        return s.found
    def livein(s, b, z):
        """values a path from b to z may still use"""
        if s._live is None:
            f = s.f; L = {x.b: set() for x in f.blocks}; gen = {}; kill = {}
            for x in f.blocks:
                g = set(); d = set()
                for i in x.insts:
                    if i.op != "phi":
                        for v in flat(i.ops) + flat(i.args) + ([tuple(i.d["cv"])] if "cv" in i.d else []):
                            if v[0] == "v" and v not in d: g.add(v)
                    d.add(("v", i.i))
                gen[x.b] = g; kill[x.b] = d
            ch = True
            while ch:
                ch = False
                for x in reversed(f.blocks):
                    o = set()
                    for z2 in x.succ: o |= L[z2] | s.phiuse(x.b, z2)
                    n = gen[x.b] | (o - kill[x.b])
                    if n != L[x.b]: L[x.b] = n; ch = True
            s._live = L
        return s._live[z] | s.phiuse(b, z)
    def phiuse(s, b, z):
        k = (b, z)
        if k not in s._phi:
            s._phi[k] = {v for i in s.f.blocks[z].insts if i.op == "phi" for v, pb in s.f.phi_inc(i) if pb == b and v[0] == "v"}
        return s._phi[k]
    def succ(s, t, e, mem):
        if t.op == "br" and len(t.d["succ"]) == 2:
            k = s.val(t.ops[0], e)
            return [z for z, w in zip(t.d["succ"], (1, 0)) if k is None or (k & 1) == w]
        if t.op == "switch":
            k = s.val(t.ops[0], e)
            if k is None: return [t.d["def"]] + [c[1] for c in t.d["cases"]]
            for c, z in t.d["cases"]:
                w = c[2] if len(c) > 2 and isinstance(c[2], int) else 64
                if int(c[1]) & ((1 << w) - 1) == k: return [z]
            return [t.d["def"]]
        if t.op == "invoke": return [t.d["norm"]]
        return s.f.blocks[t.bb].succ
    def val(s, v, e):
        if v and v[0] == "a" and v[1] in s.params: return s.params[v[1]]
        if v and v[0] == "c" and len(v) > 2 and isinstance(v[2], int) and v[2] <= 64:
            try: return int(v[1]) & ((1 << v[2]) - 1)
            except ValueError: return None
        return e.get(v)
    def step(s, i, mem, e):
        v = ("v", i.i); e.pop(v, None)
        s.at(i, mem)
        if i.op == "alloca" or i.op == "br": return [(mem, e)]
        fo = s.forced(i)
        if fo is not None: e[v] = fo; return [(mem, e)]
        if i.is_call() or i.op == "load":
            kn = lambda x: s.val(x, e)
            r = s.answer(i, mem, kn)
            if i.is_call():
                for a in i.args:
                    b, off = s.f.base_off(a)
                    if b in s.allo and not s.readonly(i, a):
                        for k in [k for k in e if k[0] == "m" and k[1] == b[1]]: del e[k]
            if r is not None:
                out = []
                for x, m2 in r:
                    e2 = dict(e)
                    if x is not None: e2[v] = x
                    out.append((m2, e2))
                return out
            if i.op == "load":
                k = s.slot(i.ops[0])
                if k is not None and k in e: e[v] = e[k]
            return [(mem, e)]
        w = width(i.ty)
        if i.op == "store":
            k = s.slot(i.ops[1])
            if k is not None:
                for q in [q for q in e if q[0] == "m" and q[1] == k[1] and abs(q[2] - k[2]) < 8]: del e[q]
                x = s.val(i.ops[0], e)
                if x is not None: e[k] = x
            else:
                b, off = s.f.base_off(i.ops[1])
                if b in s.allo:
                    for q in [q for q in e if q[0] == "m" and q[1] == b[1]]: del e[q]
            return [(mem, e)]
        x = None
        if i.op in ("zext", "freeze"): x = s.val(i.ops[0], e)
        elif i.op == "trunc":
            x = s.val(i.ops[0], e)
            if x is not None and w: x &= (1 << w) - 1
        elif i.op == "sext":
            x = s.val(i.ops[0], e); o = s.f.inst(i.ops[0])
            sw = width(o.ty) if o is not None else (i.ops[0][2] if i.ops[0][0] == "c" else None)
            if sw is None and i.ops[0][0] == "a": sw = width(s.f.params[i.ops[0][1]].get("ty"))
            x = signed(x, sw) & ((1 << w) - 1) if x is not None and sw and w else None
        elif i.op == "select":
            c = s.val(i.ops[0], e)
            if c is not None: x = s.val(i.ops[1] if c & 1 else i.ops[2], e)
            else:
                a, b = s.val(i.ops[1], e), s.val(i.ops[2], e)
                if a is not None and a == b: x = a
        elif i.op == "icmp":
            a, b = s.val(i.ops[0], e), s.val(i.ops[1], e)
            o = s.f.inst(i.ops[0]); cw = width(o.ty) if o is not None else None
            if cw is None:
                for q in i.ops:
                    if q[0] == "c" and len(q) > 2 and isinstance(q[2], int): cw = q[2]
                    elif q[0] == "a": cw = width(s.f.params[q[1]].get("ty")) or cw
            if a is not None and b is not None: x = cmp(i.d["pred"], a, b, cw or 64)
            elif b == 0 and i.d["pred"] in ("ult", "uge"): x = int(i.d["pred"] == "uge")
            elif a == 0 and i.d["pred"] in ("ugt", "ule"): x = int(i.d["pred"] == "ule")
        elif w and len(i.ops) == 2:
            a, b = s.val(i.ops[0], e), s.val(i.ops[1], e)
            if a is not None and b is not None: x = binop(i.op, a, b, w)
            elif i.op == "and" and 0 in (a, b): x = 0
            elif i.op == "or" and w == 1 and 1 in (a, b): x = 1
        if x is not None and (s.ints or w and w <= 8): e[v] = x
        return [(mem, e)]
    def readonly(s, i, a):
        """the argument is taken by reference to const"""
        if not i.callee: return False
        ps = params(i.dem)
        if ps is None: return False
        off = len(i.args) - len(ps)
        if not 0 <= off <= 2: return False
        return all(k >= off and ps[k - off].rstrip().endswith("const&") for k, x in enumerate(i.args) if x == a)
