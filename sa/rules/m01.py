"""M01: every explicitly managed big integer is initialised before use and released exactly once, on every path."""
import re
from .. import ir, gmp
from ..ir import Broken, short
ARITH = re.compile(r"/checked_cast\.h$")

TUS = ["bqfc", "vdf_client", "fastvdf", "hw_proof", "hw_interface", "hw_client", "vdf_driver", "vdf_base", "vdf_bench"]
MPZ_T = re.compile(r"^(?:(?:const|struct|mpz_t|__mpz_struct|mpz_struct|MP_INT|mpz_ptr)\s*)+(?:\[1\])?$")
CAP = 400

class Prog:
    def __init__(s, tus):
        ir.compile_all(tus)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            s.mods = list(ex.map(lambda t: ir.view(t, allf=True, inline=False, cg=False, passes=ir.SSA_ONLY), tus))
        s.glob = {}
        for M in s.mods:
            for n, f in M.funcs.items(): s.glob.setdefault(n, f)
        s.dt = {}
        for M in s.mods:
            d = s.dt[M] = set()
            for f in M.funcs.values():
                c, k = ctor_of(f.dem)
                if k == "~": d.add(c); d.add(split(c + "()")[1] if "(" in c else c)
        s.memo = {}; s.raw = {}; s.evm = {}; s.act = set()
        s.throwers()
    def fn(s, M, name):
        return M.funcs.get(name) or s.glob.get(name)
    def throwers(s):
        """names of functions an exception thrown by repository code can leave"""
        s.thr = set()
        def handled(f, i):
            if i.op != "invoke": return False
            for x in f.blocks[i.d["unw"]].insts:
                if x.op == "landingpad": return any(k == "catch" and (tuple(v) == ("n",) or tuple(v)[:2] == ("g", "_ZTISt9exception")) for k, v in x.d["clauses"])
            return False
        fs = [f for M in s.mods for f in M.funcs.values() if not f.nounwind]
        ch = True
        while ch:
            ch = False
            for f in fs:
                if f.name in s.thr: continue
                if any((s.thrown(i) or i.callee in s.thr) and not handled(f, i) for i in f.calls()): s.thr.add(f.name); ch = True
    def ev(s, g, i):
        k = (g.mod.tu, g.name, i.i)
        if k not in s.evm: s.evm[k] = events(s, g, i)
        return s.evm[k]
    def thrown(s, i): return i.callee == "__cxa_throw" and not (i.loc and ARITH.search(i.loc[0]))
    def mayth(s, i): return s.thrown(i) or i.callee in s.thr
    # -- layout
    def managed(s, M, cls): return cls in s.dt[M]
    def cells(s, M, t, top=True):
        """offsets of the big integers of a type that are not members of a class with a destructor"""
        t = re.sub(r"^(const |struct |class )+", "", t.strip())
        if MPZ_T.match(t): return {0: ""}
        a = re.match(r"^(.*?)\[(\d+)\](.*)$", t)
        if a:
            el = a.group(1) + a.group(3); n = int(a.group(2))
            sz = 16 if MPZ_T.match(el) else (M.structs.get(el) or {}).get("size")
            c = s.cells(M, el, False)
            if not c or not sz or n > 64: return {}
            return {k * sz + o: "[%d]%s" % (k, x) for k in range(n) for o, x in c.items()}
        st = M.structs.get(t)
        if not st or (not top and s.managed(M, t)) or t == "__mpz_struct": return {}
        r = {}
        for m in st["members"]:
            if m["type"].endswith(("*", "&")): continue
            for o, x in s.cells(M, m["type"], False).items(): r[m["off"] + o] = "." + m["name"] + x
        return r
    def tname(s, M, i):
        """source type of an alloca"""
        v = i.fn.vtypes.get(("v", i.i), ())
        for t in v: return t
        a = re.match(r"^\[(\d+) x (.*)\]$", i.d.get("aty", ""))
        if a: return "%s[%s]" % (ir.clean_ty(a.group(2)) or "", a.group(1))
        return ir.clean_ty(i.d.get("aty", "")) or ""

ERR = {"Ii": "is initialised again before it was released", "UC": "is released although it was never initialised", "CC": "is released twice", "BC": "is released although its limbs belong to another number",
       "Uu": "is used before it is initialised", "Cu": "is used after it was released"}

class Run:
    """all paths of f for one object: cell states U(ninitialised) I(nitialised) C(leared) B(orrowed) ?(not judged)"""
    def __init__(s, P, f, base, s0, assume=None):
        s.assume = assume; s.P = P; s.f = f; s.base = base; s.s0 = s0
        s.errs = {}; s.ends = []; s.touched = {}; s.esc = set(); s.ev = 0; s.owned = set(); s.over = False
        s.scan()
        s.go()
    def at(s, v):
        b, o = bo(s.f, v)
        if b != s.base: return None
        return (o,)
    def scan(s):
        """uses that take the address out of sight"""
        f = s.f
        for i in f.all():
            if i.op == "store":
                a = s.at(i.ops[0])
                if a and not s.at(i.ops[1]) and once(f, i.ops[1]) is None: s.lose(a[0])
            elif i.op in ("phi", "select", "insertvalue"):
                for v in ([v for v, _ in f.phi_inc(i)] if i.op == "phi" else i.ops):
                    a = s.at(v)
                    if a and i.op != "phi": s.lose(a[0])
                    elif a and s.base[0] != "v": s.lose(a[0])
                    elif a and not s.samephi(i): s.lose(a[0])
            elif i.is_call():
                for v in i.args:
                    a = s.at(v)
                    if a and a[0] is None: s.lose(None)
        cnt = {}
        for b in f.blocks:
            t = b.term
            if t.op == "br" and len(t.d["succ"]) == 2: cnt[t.ops[0]] = cnt.get(t.ops[0], 0) + 1
        s.multi = {c for c, n in cnt.items() if n > 1}
        s.track = set()
        for i in f.all():
            if i.op == "phi" and sum(1 for v, _ in f.phi_inc(i) if v and v[0] == "c") >= 1 and i.ty.startswith("i"): s.track.add(("v", i.i))
    def samephi(s, i): return False
    def lose(s, o): s.esc.add(o)
    def lost(s, o): return None in s.esc or any(e is not None and e <= o for e in s.esc if not s.single) or o in s.esc
    single = False
    def go(s):
        f = s.f; P = s.P
        seen = set(); st = [(0, 0, frozenset(), frozenset(), None)]; n = 0
        while st:
            b, k, cells, known, prev = st.pop()
            key = (b, k, cells, known, prev if k == 0 and any(i.op == "phi" and ("v", i.i) in s.track for i in f.blocks[b].insts[:4]) else None)
            if key in seen: continue
            seen.add(key); n += 1
            if n > CAP * max(8, len(f.blocks)): s.over = True; return
            c = dict(cells); kn = dict(known)
            B = f.blocks[b]; end = False
            for i in B.insts[k:]:
                v = ("v", i.i)
                if v == s.base: c = {}
                if i.op == "phi":
                    if v in s.track:
                        x = [w for w, p in f.phi_inc(i) if p == prev]
                        if x and x[0] and x[0][0] == "c": kn[v] = int(x[0][1])
                        elif x and x[0] in kn: kn[v] = kn[x[0]]
                        else: kn.pop(v, None)
                    continue
                if v in kn: kn.pop(v)
                if i.op == "store": s.store(i, c)
                elif i.is_call():
                    pre = dict(c)
                    s.call(i, c)
                    if P.mayth(i):
                        if i.op == "invoke": st.append((i.d["unw"], 0, frozenset(pre.items()), frozenset(kn.items()), b))
                        else: s.ends.append(("exc", pre, i))
                    if i.d.get("noreturn") or i.callee in ("__cxa_throw", "abort", "exit", "__assert_fail", "_exit"): end = True; break
                elif i.op == "ret": s.ends.append(("ret", c, i))
                elif i.op == "resume": s.ends.append(("exc", c, i))
            if end: continue
            t = B.term; cs = frozenset(c.items())
            if t.op == "br" and len(t.d["succ"]) == 2:
                x = s.truth(t.ops[0], kn)
                for j, z in enumerate(t.d["succ"]):
                    if x is not None and bool(x) != (j == 0): continue
                    k2 = dict(kn)
                    if t.ops[0] in s.multi: k2[t.ops[0]] = 1 - j
                    st.append((z, 0, cs, frozenset(k2.items()), b))
            elif t.op == "invoke": st.append((t.d["norm"], 0, cs, frozenset(kn.items()), b))
            else:
                for z in B.succ: st.append((z, 0, cs, frozenset(kn.items()), b))
    def truth(s, v, kn, d=0):
        if v in kn: return kn[v]
        if s.assume:
            j = s.f.inst(v)
            if j is not None and j.op == "load" and s.f.base_off(j.ops[0])[0] == s.base and s.assume[0] in s.f.fields_of(j.ops[0]): return s.assume[1]
        if v and v[0] == "c": return int(v[1])
        i = s.f.inst(v)
        if i is None or d > 6: return None
        if i.op == "icmp":
            a, b = [s.truth(x, kn, d + 1) if x and x[0] in ("c", "v") else None for x in i.ops[:2]]
            if a is None or b is None: return None
            p = i.d.get("pred")
            if p == "eq": return int(a == b)
            if p == "ne": return int(a != b)
            return None
        if i.op in ("zext", "sext", "trunc", "freeze"): return s.truth(i.ops[0], kn, d + 1)
        if i.op == "xor" and i.ops[1][:1] == ("c",) and i.ty == "i1":
            a = s.truth(i.ops[0], kn, d + 1)
            return None if a is None else 1 - a
        return None
    # -- events
    def get(s, c, o):
        if s.lost(o): return "?"
        return c.get(o, s.s0)
    def err(s, k, o, i): s.errs.setdefault((k, o), i)
    def use(s, c, o, i):
        s.touched.setdefault(o, i); x = s.get(c, o)
        if x in "UC": s.err(x + "u", o, i); c[o] = "?"
    def init(s, c, o, i):
        s.touched.setdefault(o, i); s.owned.add(o); x = s.get(c, o)
        if x == "I": s.err("Ii", o, i)
        if x != "?" or not s.lost(o): c[o] = "I"
    def clear(s, c, o, i):
        s.touched.setdefault(o, i); s.owned.add(o); x = s.get(c, o)
        if x in "UCB": s.err(x + "C", o, i)
        if x != "?" or not s.lost(o): c[o] = "C"
    def store(s, i, c):
        a = s.at(i.ops[1])
        if not a or a[0] is None: return
        fl = s.f.fields_of(i.ops[1])
        if any(x.endswith("mpz_struct::_mp_d") for x in fl):
            o = a[0] - 8; w = s.f.inst(i.ops[0]); s.touched.setdefault(o, i)
            src = w is not None and w.op == "load" and any(x.endswith("mpz_struct::_mp_d") for x in s.f.fields_of(w.ops[0]))
            if s.get(c, o) in ("U", "?") or src: c[o] = "B" if src else "I"
    def call(s, i, c):
        f = s.f; P = s.P
        if i.callee and (i.callee.startswith("llvm.memcpy") or i.callee.startswith("llvm.memmove")):
            a = s.at(i.args[0]); n = i.args[2]
            if a and a[0] is not None:
                n = int(n[1]) if n[0] == "c" else 1 << 30
                for o in s.objcells():
                    if a[0] <= o and o + 16 <= a[0] + n: s.touched.setdefault(o, i); c[o] = "B"
                if n == 16: s.touched.setdefault(a[0], i); c[a[0]] = "B"
            return
        hit = [(k, s.at(v)) for k, v in enumerate(i.args)]
        hit = [(k, a[0]) for k, a in hit if a and a[0] is not None]
        if not hit: return
        if i.callee == "__gmpz_roinit_n":
            for k, o in hit:
                if k == 0: s.touched.setdefault(o, i); c[o] = "B"
            return
        r = gmp.roles(i)
        if r is not None:
            todo = []
            for v, ro in r:
                a = s.at(v)
                if not a or a[0] is None or ro in ("n", "R", "W"): continue
                todo.append((a[0], ro))
            for o, ro in todo:
                if ro == "C": s.clear(c, o, i)
                elif ro != "I": s.use(c, o, i)
            for o, ro in todo:
                if ro == "I": s.init(c, o, i)
            return
        g = P.fn(f.mod, i.callee) if i.callee else None
        if g is None:
            if gmp.is_gmp(i.callee):
                for k, o in hit: s.use(c, o, i)
            return
        for k, o in hit:
            if k >= len(g.params): continue
            for st in {s.get(c, x) for x in list(c) + [0]} | {s.s0}:
                S = summary(P, g, k, st)
                if S is None: continue
                for x in S.touched:
                    if s.get(c, o + x) != st: continue
                    s.touched.setdefault(o + x, i)
                    if x in S.owned: s.owned.add(o + x)
                    for (kd, y), w in S.errs.items():
                        if y == x: s.err(kd, o + x, i)
                    e = {cc.get(x, st) for kk, cc, w in S.ends if kk == "ret"}
                    if S.lost(x): e = {"?"}
                    if len(e) == 1: nc = e.pop()
                    elif e: nc = "?"
                    else: nc = st
                    c[o + x] = nc if (st != "?" or nc in "IC") and not s.lost(o + x) else "?"
    def objcells(s):
        if not hasattr(s, "_oc"):
            s._oc = set()
            for t in s.f.vtypes.get(s.base, ()): s._oc |= set(s.P.cells(s.f.mod, t))
            i = s.f.inst(s.base)
            if i is not None and i.op == "alloca": s._oc |= set(s.P.cells(s.f.mod, s.P.tname(s.f.mod, i)))
        return s._oc

def summary(P, g, k, st):
    key = (g.mod.tu, g.name, k, st)
    if key in P.memo: return P.memo[key]
    if (g.mod.tu, g.name, k) in P.act: return None
    if g.params[k]["ty"] != "ptr": P.memo[key] = None; return None
    if not relevant(P, g, k): P.memo[key] = None; return None
    P.act.add((g.mod.tu, g.name, k))
    try: r = Run(P, g, ("a", k), st)
    finally: P.act.discard((g.mod.tu, g.name, k))
    P.memo[key] = r
    return r

def relevant(P, g, k, seen=None):
    """does the parameter (or something in the object it points to) reach a big-integer operation"""
    key = (g.mod.tu, g.name, k)
    if key in P.raw: return P.raw[key]
    P.raw[key] = False
    r = False
    for i in g.all():
        if i.is_call():
            for j, v in enumerate(i.args):
                if g.base_off(v)[0] != ("a", k): continue
                if gmp.roles(i) is not None or (i.callee or "").startswith("llvm.memcpy"): r = True
                else:
                    h = P.fn(g.mod, i.callee) if i.callee else None
                    if h is not None and j < len(h.params) and relevant(P, h, j): r = True
        elif i.op == "store" and g.base_off(i.ops[1])[0] == ("a", k) and any(x.endswith("_mp_d") for x in g.fields_of(i.ops[1])): r = True
    P.raw[key] = r
    return r

def cname(P, f, base, o, i=None):
    n = [v for v, fn in f.vnames.get(base, ()) if v]
    nm = n[0] if n else "?"
    for t in f.vtypes.get(base, ()):
        x = P.cells(f.mod, t).get(o)
        if x is not None: return nm + x
    return nm + ("+%d" % o if o else "")

def bo(f, v):
    """base and offset of a pointer, read through a pointer variable that is assigned once"""
    off = 0
    for _ in range(6):
        b, o = f.base_off(v)
        off = None if off is None or o is None else off + o
        i = f.inst(b)
        s = once(f, i.ops[0]) if i is not None and i.op == "load" and i.ty == "ptr" else None
        if s is None: return b, off
        v = s
    return b, off
def once(f, a):
    """the value of a local variable that is assigned once"""
    i = f.inst(a)
    if i is None or i.op != "alloca": return None
    st = [u for u in f.users.get(a, ()) if u.op == "store" and u.ops[1] == a]
    return st[0].ops[0] if len(st) == 1 else None

def repo_fn(f): return f.file.startswith(ir.REPO + "/") and not re.search(r"(^test|_tests?\.)", f.file.rsplit("/", 1)[-1])

def split(dem):
    """(enclosing scope, name) of a demangled function, local classes included"""
    s = re.sub(r"\s*(const|\[clone[^\]]*\])\s*$", "", dem)
    if s.endswith(")"):
        d = 0
        for k in range(len(s) - 1, -1, -1):
            d += (s[k] == ")") - (s[k] == "(")
            if d == 0: s = s[:k]; break
    d = 0
    for k in range(len(s) - 1, 0, -1):
        d += (s[k] in ")>") - (s[k] in "(<") if s[k - 1:k + 1] != "->" else 0
        if d == 0 and s[k - 1:k + 1] == "::": return s[:k - 1], s[k + 1:]
    return "", s
def ctor_of(dem):
    """class name if the function is a constructor / destructor"""
    sc, n = split(dem)
    last = re.sub(r"<.*", "", split(sc + "()")[1]) if sc else ""
    if not sc: return None, None
    if n.startswith("~"): return sc, "~"
    return (sc, "c") if re.sub(r"<.*", "", n) == last else (None, None)

def run(R):
    R.rule("M01.local", "a local big integer is initialised before it is used or released, initialised once, and released exactly once on every path out of the function (return, early return, goto, exception thrown by repository code)", floor=50)
    R.rule("M01.helper", "a function that initialises or releases big integers of its caller does so for each of them on all of its paths", floor=6)
    R.rule("M01.class", "every constructor of a class that owns big integers initialises each exactly once and its destructor releases each exactly once; nothing else does", floor=20)
    R.rule("M01.member", "members initialised explicitly from outside are released explicitly, and the reverse", floor=2)
    R.rule("M01.heap", "an object holding explicitly managed big integers gets them initialised before it is handed on, and released before it is deleted", floor=2)
    R.rule("M01.copy", "no object of a class that releases its big integers is copied bitwise", floor=5)
    R.assume_("GMP functions have their documented effects; allocation failure and the range checks of checked_cast on sizes GMP reports are not considered as exceptions; a big integer whose address is stored where this analysis does not follow it is not judged (counted)")
    P = Prog(TUS)
    done = set(); dcls = set(); mem = {}
    for M in P.mods:
        for f in M.funcs.values():
            if not repo_fn(f): continue
            key = (f.dem, f.file)
            if key in done: continue
            done.add(key)
            fn(R, P, f, mem)
            copies(R, P, f)
        classes(R, P, M, dcls)
    members(R, mem)

def fn(R, P, f, mem):
    special = ctor_of(f.dem)[1]
    # locals
    for i in f.all():
        if i.op == "alloca":
            b = ("v", i.i); cl = P.cells(f.mod, P.tname(f.mod, i))
            if not cl or P.managed(f.mod, P.tname(f.mod, i)): continue
            r = Run(P, f, b, "U")
            if r.over: raise Broken("M01: too many paths in %s" % f.dem)
            if not r.touched: continue
            for o in sorted(set(cl) & set(r.touched)):
                nm = cname(P, f, b, o)
                if r.lost(o): R.saw("unjudged locals", "%s %s" % (short(f.dem), nm)); continue
                bad = [(k, w) for (k, y), w in r.errs.items() if y == o]
                leak = [w for kd, c, w in r.ends if c.get(o, "U") == "I"]
                for k, w in bad: R.bad("M01.local", w.where(), "%s in %s %s" % (nm, short(f.dem), ERR[k]), key="%s %s %s" % (short(f.dem), nm, k))
                if leak and not bad:
                    kd = [kd for kd, c, w in r.ends if c.get(o, "U") == "I"][0]
                    R.bad("M01.local", leak[0].where(), "%s in %s is not released on a path that leaves the function here%s" % (nm, short(f.dem), " through an exception" if kd == "exc" else ""), key="%s %s leak" % (short(f.dem), nm))
                if not bad and not leak: R.ok("M01.local", "%s %s" % (short(f.dem), nm))
    # parameters
    for k, p in enumerate(f.params):
        if p["ty"] != "ptr" or (special and k == 0) or p.get("sret"): continue
        if not relevant(P, f, k): continue
        S = {st: summary(P, f, k, st) for st in "UI"}
        if S["I"] is None: continue
        for o in sorted(S["I"].owned):
            nm = cname(P, f, ("a", k), o)
            if S["I"].lost(o): R.saw("unjudged parameters", "%s %s" % (short(f.dem), nm)); continue
            out = {}
            for st in "UI":
                r = S[st]
                out[st] = ([(kk, w) for (kk, y), w in r.errs.items() if y == o], {c.get(o, st) for kd, c, w in r.ends if kd == "ret"}, {c.get(o, st) for kd, c, w in r.ends if kd == "exc"})
            tc = set()
            for ty in f.vtypes.get(("a", k), ()): tc |= set(P.cells(f.mod, re.sub(r"^const ", "", ty)))
            if f.vtypes.get(("a", k)) and o not in tc and not split(f.dem)[0]: continue
            okI = not out["I"][0] and out["I"][1] in ({"I"}, {"C"}, {"B"}, set())
            okU = not out["U"][0] and out["U"][1] in ({"I"}, {"B"}, set())
            if not okI and not okU and flagged(P, f, k, o): okI = True
            if okI or okU: R.ok("M01.helper", "%s %s %s" % (short(f.dem), nm, "initialises" if okU else "releases" if out["I"][1] == {"C"} else "uses"))
            else:
                e = [x for x in out["U" if any(x[0] == "Ii" for x in out["I"][0]) else "I"][0]]
                R.bad("M01.helper", e[0][1].where() if e else "%s:%d" % (ir.rel(f.file), f.line), "%s: %s %s" % (short(f.dem), nm, ERR[e[0][0]] if e else "is released (or initialised) on some paths only"), key="%s %s helper" % (short(f.dem), nm))
    # objects reached through pointers, and members
    seen = set()
    for i in f.calls():
        ev = P.ev(f, i)
        for v, offs in ev:
            b, o = bo(f, v)
            for role, x in offs:
                h = holder(P, f, v, x)
                if h: mem.setdefault(h[0], {}).setdefault(role, {}).setdefault(h[1], i)
            bi = f.inst(b)
            if bi is None or bi.op == "alloca" or b in seen: continue
            seen.add(b)
            r = Run(P, f, b, "?")
            for (kk, y), w in r.errs.items():
                R.bad("M01.heap", w.where(), "a big integer of the object at %s in %s %s" % (bi.where(), short(f.dem), ERR[kk]), key="%s heap %s %d" % (short(f.dem), kk, y))
            if not r.errs: R.ok("M01.heap", "%s object at %s" % (short(f.dem), bi.where()))
    heap(R, P, f)

def flagged(P, f, k, o):
    """released on exactly the paths on which a flag of the same object says it was initialised"""
    flags = set()
    for i in f.all():
        if i.op == "load" and i.ty in ("i8", "i1", "i32") and f.base_off(i.ops[0])[0] == ("a", k): flags |= f.fields_of(i.ops[0])
    for fl in sorted(flags):
        setters = False
        for M in P.mods:
            for g in M.funcs.values():
                if not repo_fn(g): continue
                ini = any(ro == "I" for i in g.calls() for _, offs in P.ev(g, i) for ro, _ in offs)
                if ini and any(i.op == "store" and fl in g.fields_of(i.ops[1]) and i.ops[0][0] == "c" and int(i.ops[0][1]) != 0 for i in g.all()): setters = True
        if not setters: continue
        on = Run(P, f, ("a", k), "I", (fl, 1)); off = Run(P, f, ("a", k), "U", (fl, 0))
        if not on.errs and not off.errs and {c.get(o, "I") for kd, c, w in on.ends if kd == "ret"} == {"C"} and {c.get(o, "U") for kd, c, w in off.ends if kd == "ret"} == {"U"}: return True
    return False

def events(P, f, i):
    """[(argument, [(I or C, offset relative to it)])] of a call"""
    r = gmp.roles(i)
    if r is not None: return [(v, [(ro, 0)]) for v, ro in r if ro in ("I", "C")]
    g = P.fn(f.mod, i.callee) if i.callee else None
    if g is None: return []
    res = []
    if ctor_of(g.dem)[1]: return []
    for k, v in enumerate(i.args):
        if k >= len(g.params) or g.params[k]["ty"] != "ptr" or not relevant(P, g, k): continue
        o = []
        S = summary(P, g, k, "U")
        if S is not None:
            o += [("I", x) for x in S.owned if {c.get(x, "U") for kd, c, w in S.ends if kd == "ret"} == {"I"} and not any(y == x for _, y in S.errs)]
        S = summary(P, g, k, "I")
        if S is not None:
            o += [("C", x) for x in S.owned if "C" in {c.get(x, "I") for kd, c, w in S.ends if kd == "ret"}]
        if o: res.append((v, o))
    return res

def holder(P, f, v, x):
    """(class::field that embeds the big integer or the plain struct of big integers, offset in it)"""
    w = v; off = x; top = None
    for _ in range(20):
        i = f.inst(w)
        if i is None or i.op != "getelementptr": break
        src = ir.clean_ty(i.d["src"])
        o = i.d.get("off")
        if src in f.mod.structs and o is not None:
            fl = f.mod.field_at(src, o)
            st = f.mod.structs[src]
            m = [m for m in st["members"] if fl and m["name"] == fl[0]]
            if m: top = (src + "::" + fl[0], off + o - m[0]["off"], src)
        if o is not None: off += o
        elif src in f.mod.structs or "[" in i.d["src"]:
            # variable index below a member: the offset inside the element stays
            pass
        w = i.ops[0]
    if top is None or P.managed(f.mod, top[2]) and not P.cells(f.mod, top[2]): return None
    return (top[0], top[1])

def members(R, mem):
    for h, d in sorted(mem.items()):
        I = set(d.get("I", {})); C = set(d.get("C", {}))
        w = list((d.get("I") or d.get("C")).values())[0]
        cls = h.rsplit("::", 1)[0]
        if I == C: R.ok("M01.member", "%s: %d" % (h, len(I)))
        elif I - C: R.bad("M01.member", w.where(), "%s is initialised but %s never released" % (h, "part of it" if C else "it is"), key=h + " leak")
        else: R.bad("M01.member", w.where(), "%s is released but %s never initialised" % (h, "part of it" if I else "it is"), key=h + " noinit")

def used(M, cls, o):
    """is the member referred to at all"""
    fl = M.field_at(cls, o)
    if not hasattr(M, "_refs"):
        M._refs = {(ir.clean_ty(i.d["src"]), i.d.get("off")) for f in M.funcs.values() for i in f.all() if i.op == "getelementptr"}
    return o == 0 or not fl or any(c == cls and x is not None and M.field_at(cls, x) == fl for c, x in M._refs)

def classes(R, P, M, seen):
    by = {}
    for f in M.funcs.values():
        c, k = ctor_of(f.dem)
        if c: by.setdefault(c, []).append((f, k))
    for cls, fs in sorted(by.items()):
        nm = cls if cls in M.structs else split(cls + "()")[1]
        cl = P.cells(M, nm)
        if not cl or not P.managed(M, nm): continue
        runs = [(f, k, Run(P, f, ("a", 0), "U" if k == "c" else "I")) for f, k in fs]
        for r in runs:
            if r[2].over: raise Broken("M01: too many paths in %s" % r[0].dem)
        direct = {m["off"] for m in M.structs[nm]["members"] if MPZ_T.match(m["type"])}
        own = {o: x for o, x in cl.items() if o in direct and used(M, nm, o) or any(o in r.owned for _, _, r in runs)}
        for f, k, r in runs:
            key = (f.file, f.line, f.dem)
            if key in seen: continue
            seen.add(key)
            st, want = ("U", "I") if k == "c" else ("I", "C")
            for o, n in sorted(own.items()):
                if r.lost(o): R.saw("unjudged members", nm + n); continue
                e = [(kk, w) for (kk, y), w in r.errs.items() if y == o]
                ends = {c.get(o, st) for kd, c, w in r.ends if kd == "ret"}
                exc = {c.get(o, st) for kd, c, w in r.ends if kd == "exc"}
                fname = nm + "::" + split(f.dem)[1]; pos = "%s:%d" % (ir.rel(f.file), f.line)
                if e: R.bad("M01.class", e[0][1].where(), "%s: %s %s" % (fname, n[1:], ERR[e[0][0]]), key="%s%s" % (f.dem, n))
                elif ends - {want}: R.bad("M01.class", pos, "%s leaves %s %s" % (fname, n[1:], {"U": "uninitialised", "I": "unreleased", "B": "sharing its limbs with another number", "C": "released"}.get(sorted(ends - {want})[0], "?")), key="%s%s" % (f.dem, n))
                elif k == "c" and "I" in exc: R.bad("M01.class", pos, "%s leaves %s initialised when it throws" % (fname, n[1:]), key="%s%s exc" % (f.dem, n))
                else: R.ok("M01.class", "%s %s" % (fname, n))

def copies(R, P, f):
    for i in f.calls():
        c = i.callee or ""
        if not (c.startswith("llvm.memcpy") or c.startswith("llvm.memmove")): continue
        if i.args[2][0] != "c": continue
        n = int(i.args[2][1])
        for v in i.args[:1]:
            b, o = f.base_off(v); bi = f.inst(b)
            ts = set(f.vtypes.get(b, ())) | ({P.tname(f.mod, bi)} if bi is not None and bi.op == "alloca" else set())
            for t in ts:
                t = re.sub(r"^const ", "", t)
                if not P.managed(f.mod, t): continue
                st = f.mod.structs.get(t)
                cl = P.cells(f.mod, t)
                if cl and st and o == 0 and n >= st["size"]: R.bad("M01.copy", i.where(), "%s copies a %s bitwise; both copies release the same big integers" % (short(f.dem), t), key="%s %s" % (short(f.dem), t))
                elif st: R.ok("M01.copy", "%s %s" % (short(f.dem), t))

def same(f, a, b, d=0):
    if a == b: return True
    x, y = f.inst(a), f.inst(b)
    if x is None or y is None or d > 8 or x.op != y.op or x.op == "phi" or x.op == "alloca": return False
    if x.is_call():
        return x.callee is not None and x.callee == y.callee and len(x.args) == len(y.args) and all(same(f, p, q, d + 1) for p, q in zip(x.args, y.args))
    if len(x.ops) != len(y.ops) or x.d.get("off") != y.d.get("off"): return False
    return all(same(f, p, q, d + 1) for p, q in zip(x.ops, y.ops))

def pclass(P, f, v, depth=0):
    """class of the object a pointer points to"""
    for t in f.vtypes.get(v, ()):
        if P.cells(f.mod, t): return t
    i = f.inst(v)
    if i is None: return None
    if depth == 0:
        for j in f.all():
            if j.op == "store" and j.ops[0] == v and once(f, j.ops[1]) == v:
                for t in f.vtypes.get(j.ops[1], ()):
                    if t.endswith("*") and P.cells(f.mod, t[:-1]): return t[:-1]
    for j in f.all():
        if j.op == "getelementptr" and j.ops[0] == v and ir.clean_ty(j.d["src"]) in f.mod.structs: return ir.clean_ty(j.d["src"])
    if i.op == "load":
        a = f.inst(i.ops[0])
        if a is not None and a.is_call():
            g = re.findall(r"([\w:]+)\*", a.dem)
            for t in g:
                if P.cells(f.mod, t): return t
    return None

def heap(R, P, f):
    for i in f.calls():
        c = i.callee or ""
        if c in ("_ZdlPv", "_ZdlPvm", "free") or i.dem.startswith("operator delete("):
            v = bo(f, i.args[0])[0]
            t = pclass(P, f, v)
            if not t or P.managed(f.mod, t): continue
            cl = P.cells(f.mod, t)
            if not cl: continue
            # every path to the delete passes the release of each number
            for o, nm in sorted(cl.items()):
                rel = [j for j in f.calls() for w, offs in P.ev(f, j) for role, x in offs if role == "C"
                       and (bo(f, w)[1] is not None and bo(f, w)[1] + x == o) and same(f, bo(f, w)[0], v)]
                if any(f.idom_inst(j, i) for j in rel): R.ok("M01.heap", "%s deletes %s after releasing %s" % (short(f.dem), t, nm[1:]))
                else: R.bad("M01.heap", i.where(), "%s deletes a %s without releasing its %s first" % (short(f.dem), t, nm[1:]), key="%s delete %s%s" % (short(f.dem), t, nm))
        elif c in ("_Znwm", "malloc") or i.dem.startswith("operator new("):
            v = ("v", i.i); t = pclass(P, f, v)
            if not t or P.managed(f.mod, t): continue
            cl = P.cells(f.mod, t)
            if not cl: continue
            r = RunOwn(P, f, v)
            for o, nm in sorted(cl.items()):
                for (kk, y), w in r.errs.items():
                    if y == o: R.bad("M01.heap", w.where(), "%s of a new %s in %s %s" % (nm[1:], t, short(f.dem), ERR[kk]), key="%s new %s%s %s" % (short(f.dem), t, nm, kk))
                b = [w for kd, cc, w in r.ends if kd == "ret" and cc.get(o, "U") not in ("I",)]
                if b: R.bad("M01.heap", i.where(), "%s hands on a %s whose %s is not initialised as a number of its own" % (short(f.dem), t, nm[1:]), key="%s new %s%s" % (short(f.dem), t, nm))
                else: R.ok("M01.heap", "%s initialises %s of a new %s" % (short(f.dem), nm[1:], t))

class RunOwn(Run):
    """a new object: its address may be stored elsewhere, its numbers are still this function's to initialise"""
    def __init__(s, P, f, v): Run.__init__(s, P, f, v, "U")
    def lose(s, o): pass
    def go(s):
        Run.go(s)
        reach = s.f.inst(s.base).bb
        D = s.f.reachable(reach) | {reach}
        s.ends = [e for e in s.ends if e[2].bb in D and s.f.dominates(reach, e[2].bb)]
