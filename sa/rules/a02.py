from .. import ir, fin
from ..ir import Broken, short
from ..paths import *

SETMEM = "__gmp_set_memory_functions"
BASE = "VdfBaseInit"

def gmp_sym(n): return n.startswith(("__gmpz_", "__gmpn_", "__gmpf_", "__gmpq_")) 
def padded_use(n): return n.startswith(("asm_avx2_func", "asm_avx512_func", "asm_cel_func")) or n == "mp_alloc_func"

def run(R):
    R.rule("A02.first", "the allocator is installed before any call that can reach GMP, on every path of every program's main (directly or through the library's initialisation function)", floor=3)
    R.rule("A02.entry", "a library that uses routines relying on padded limbs installs the allocator in its initialisation function, on every path", floor=2)
    R.rule("A02.global", "no constructor of a global object reaches GMP before main", floor=3)
    R.rule("A02.none", "libraries that do not install the allocator use no routine that relies on padded limbs", floor=2)
    R.rule("A02.alloc", "a block of at least the requested size, 16-byte aligned plus 8, for every request size", floor=3)
    R.rule("A02.free", "exactly the blocks the allocator returned are released, at their true start; in-place limb buffers never are", floor=3)
    R.rule("A02.realloc", "reallocation returns a block of the new size with the common prefix copied and the old block released after it", floor=3)
    R.rule("A02.inplace", "in-place limb buffers lie on 64-byte boundaries of their object", floor=2)
    funcs = None
    for tu, kind in (("vdf_client", "main"), ("vdf_bench", "main"), ("hw_client", "main"), ("vdf_base", "init"), ("vdf_base_hw", "init"), ("fastvdf", None), ("c_wrapper", None)):
        M = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
        R.saw("units", tu)
        reach = reaching(M, gmp_sym)
        ctors(R, tu, M, reach)
        if kind == "main":
            f = [x for x in M.funcs.values() if x.short == "main"]
            if len(f) != 1: raise Broken("no main in " + tu)
            first(R, tu, M, f[0], reach)
        elif kind == "init":
            f = [x for x in M.funcs.values() if x.short == BASE]
            if len(f) != 1: raise Broken("no initialisation function in " + tu)
            ok = installs(M, f[0].name)
            R.check("A02.entry", ok, "%s:%d" % (ir.rel(f[0].file), f[0].line), "%s does not install the allocator on every path" % BASE, inst="%s %s" % (tu, BASE))
        else:
            bad = sorted(z for n, e in M.edges.items() for z in e if padded_use(z))
            mine = [f for f in M.funcs.values() if any(i.callee in bad for i in f.calls())]
            R.check("A02.none", not mine, mine[0].dem if mine else tu, "%s uses %s without installing the padded allocator" % (tu, bad[:2]), inst=tu, key=tu)
        if kind:
            for f in M.funcs.values():
                for i in f.calls():
                    if i.callee == SETMEM:
                        a = [x[1] if x and x[0] in ("g", "F") else None for x in i.args]
                        R.saw("installations", i.where())
                        if None in a: R.bad("A02.alloc", i.where(), "the allocator functions are not constants"); continue
                        if funcs is None: functions(R, tu, a); funcs = a
                        elif funcs != a: functions(R, tu, a)
            for n, st in M.structs.items():
                if n.startswith("mpz<"):
                    for m in st["members"]:
                        if m["name"] == "data": R.check("A02.inplace", m["off"] % 64 == 0 and st["size"] % 64 == 0, "%s:%d" % (ir.rel(st["file"]), st["line"]), "limb buffer of %s is at offset %d of an object of %d bytes" % (n, m["off"], st["size"]), inst="%s %s" % (tu, n), key="limb buffer " + n)
    if funcs is None: raise Broken("no program installs an allocator")

def reaching(M, pred):
    """functions from which a symbol satisfying pred is reachable in the reference graph"""
    rev = {}
    for n, e in M.edges.items():
        for z in e: rev.setdefault(z, []).append(n)
    st = [z for z in rev if pred(z)]; seen = set(st)
    while st:
        for n in rev.get(st.pop(), ()):
            if n not in seen: seen.add(n); st.append(n)
    return seen

def installs(M, name, seen=()):
    """the function calls the installation on every path to its normal return"""
    f = M.funcs.get(name)
    if f is None or name in seen: return False
    bb = {i.bb for i in f.calls() if is_install(M, i, seen + (name,))}
    # no return reachable without passing an installing block
    st = [0]; vis = set()
    while st:
        b = st.pop()
        if b in vis: continue
        vis.add(b)
        if b in bb: continue
        if f.blocks[b].term.op == "ret": return False
        st += f.blocks[b].succ
    return bool(bb)
def is_install(M, i, seen=()):
    return i.callee == SETMEM or i.callee == "_Z11VdfBaseInitv" and i.callee not in M.funcs or i.callee in M.funcs and installs(M, i.callee, seen)

def first(R, tu, M, f, reach):
    inst = [i for i in f.calls() if is_install(M, i)]
    w = "%s:%d" % (ir.rel(f.file), f.line)
    if not inst: R.bad("A02.first", w, "%s: main never installs the allocator" % tu); return
    n = 0
    for i in f.calls():
        if i in inst: continue
        ext = tu == "hw_client"
        heavy = i.callee is None or gmp_sym(i.callee) or i.callee in reach or any(v and v[0] in ("g", "F") and v[1] in reach for v in i.args)
        # functions of other repository units: assume they may use big integers
        heavy = heavy or (i.callee in M.decls and i.callee.startswith("_Z") and not i.callee.startswith(("_ZS", "_ZNS", "_ZNKS", "_ZN5boost", "_Zd", "_Zn")))
        if not heavy: continue
        n += 1
        R.check("A02.first", any(f.idom_inst(x, i) for x in inst), i.where(), "%s: %s can reach GMP before the allocator is installed" % (tu, short(i.dem)), inst="%s: %s" % (tu, short(i.dem)), key="%s %s" % (tu, short(i.dem)))
    if not n: raise Broken("main of %s reaches no GMP call" % tu)
    # nothing replaces the allocator later
    allinst = {i for g in M.funcs.values() for i in g.calls() if i.callee == SETMEM}
    if len(allinst) > 1: R.bad("A02.first", w, "%s: the allocator is installed in %d places" % (tu, len(allinst)))

def ctors(R, tu, M, reach):
    subs = [n for n in M.edges if n.startswith(("_GLOBAL__", "__cxx_global_var_init"))]
    bad = [n for n in subs if n in reach]
    # name the global whose constructor it is
    what = sorted({z for n in bad for z in M.edges.get(n, ()) if z in M.globals and not z.startswith("_ZGV")})
    R.check("A02.global", not bad, tu, "%s: the constructor of a global object (%s) reaches GMP before main" % (tu, ", ".join(M.gname(x) for x in what[:3])), inst="%s: %d initialisers" % (tu, len(subs)), key=tu)

SIZES = sorted(set(list(range(0, 4200)) + [(1 << k) + d for k in range(12, 48) for d in range(-20, 21)]))
def functions(R, tu, a):
    fa, fr, ff = (ir.view_if(tu, lambda f, m, d: m == x, lambda f, m, d: False).funcs.get(x) for x in a)
    if None in (fa, fr, ff): raise Broken("the allocator functions are not defined in " + tu)
    w = lambda f: "%s:%d" % (ir.rel(f.file), f.line)
    # ---- allocation
    blocks = allocs(fa)
    sz = ("a", 0)
    n = 0
    for p, blk, res in blocks:
        if blk is None: continue             # allocation failed
        n += 1
        al, size, base = blk
        bad = next((k for k in SIZES if feas(p, {sz: k}) and (fin.ev(size, {sz: k}) is None or fin.ev(size, {sz: k}) < k + 8)), None)
        R.check("A02.alloc", bad is None, w(fa), "for a request of %s bytes the block is too small for the request behind the 8-byte offset" % bad, inst="%d request sizes folded" % len(SIZES), key="size")
        R.check("A02.alloc", al == ("k", 16) or al[0] == "k" and al[1] % 16 == 0, w(fa), "block alignment is not a multiple of 16", key="alignment")
        R.check("A02.alloc", res == ("ptr", base, 8), w(fa), "the returned address is not the block start plus 8", key="offset")
    if not n: raise Broken("allocation function allocates nothing")
    # ---- release: fold the address residue
    PT = Paths(ff, hook=free_hook)
    P0 = ("ptoi",)
    seen = 0
    for r in range(0, 128):
        done = []
        for p in PT.done:
            if p.events[-1][0] != "ret": continue
            e = addr_env(p, r)
            if not feas(p, e): continue
            done.append([x for x in p.events if x[0] == "free"])
        for fs in done:
            seen += 1
            if r % 16 == 8:
                R.check("A02.free", len(fs) == 1 and fs[0][2] == ("ptr", ("a", 0), -8), w(ff), "a block the allocator returned is not released at its start", inst="address residue %d mod 128" % r, key="own block")
            elif r % 64 == 0:
                R.check("A02.free", not fs, w(ff), "an in-place limb buffer is passed to the release function", inst="address residue %d mod 128" % r, key="in-place buffer")
    if not seen: raise Broken("release function not understood")
    # ---- reallocation
    def hook(S, p, i):
        if i.callee in ("posix_memalign", "free") or short(i.dem) in ("std::min", "std::max"): return free_hook(S, p, i)
        if (i.callee or "").startswith("llvm.memcpy") or i.callee in ("memcpy", "memmove") or (i.callee or "").startswith("llvm.memmove"):
            p.events.append(("copy", i, S.val(p, i.args[0]), S.val(p, i.args[1]), S.val(p, i.args[2]))); return True
    PR = Paths(fr, hook=hook)
    n = 0
    for p in PR.done:
        p.events = [("copy", e[1]) + tuple(e[2][:3]) if e[0] == "call" and (e[1].callee or "").startswith(("llvm.memcpy", "llvm.memmove")) else e for e in p.events]
        if p.events[-1][0] != "ret": continue
        bl = [e for e in p.events if e[0] == "block"]
        if not bl or any(failed(t, tr) for t, tr in p.facts.items()): continue       # out of memory
        al, size, base = bl[0][2:5]; res = p.events[-1][2]
        e0 = {}
        for (o, nw) in ((24, 100), (100, 24), (64, 64), (0, 8), (8, 0)):
            for r in (8, 64):
                e = addr_env(p, r); e.update({("a", 1): o, ("a", 2): nw})
                if not feas(p, e): continue
                n += 1
                cp = [x for x in p.events if x[0] == "copy"]; fr_ = [x for x in p.events if x[0] == "free"]
                R.check("A02.realloc", res == ("ptr", base, 8) and (fin.ev(size, e) or 0) >= nw + 8, w(fr), "the result is not a new block of the requested size", key="block")
                m = min(o, nw)
                good = len(cp) == 1 and cp[0][2] == res and cp[0][3] == ("ptr", ("a", 0), 0) and fin.ev(cp[0][4], e) == m if m else all(fin.ev(x[4], e) == 0 for x in cp)
                R.check("A02.realloc", good, w(fr), "the bytes common to the old and the new size (%d of %d/%d) are not what is copied" % (m, o, nw), key="copy")
                if r == 8: R.check("A02.realloc", len(fr_) == 1 and fr_[0][2] == ("ptr", ("a", 0), -8) and (not cp or p.events.index(cp[-1]) < p.events.index(fr_[0])), w(fr), "the old block is not released exactly once after the copy", key="release")
                else: R.check("A02.realloc", not fr_, w(fr), "an in-place buffer is released when it is grown", key="in-place")
    if not n: raise Broken("reallocation function not understood")

def feas(p, e):
    return not any(v is not None and bool(v & 1) != tr for v, tr in ((fin.ev(t, e), tr) for t, tr in p.facts.items()))
def addr_env(p, r):
    """every numeric view of the pointer argument has residue r"""
    e = {}
    def walk(t):
        if isinstance(t, tuple):
            if t == ("ptr", ("a", 0), 0): e[t] = r
            elif t[0:1] == ("ptrtoint",) : e[t] = r
            for x in t: walk(x)
    for t in p.facts: walk(t)
    e[("ptr", ("a", 0), 0)] = r
    return e
def free_hook(S, p, i):
    if i.callee == "posix_memalign":
        o = S.obj(p, i.args[0]); k = sum(1 for e in p.events if e[0] == "block")
        base = ("heap", k); p.mem[o] = ("w", ("ptr", base, 0))
        p.env[i.i] = ("allocfail", i.i)
        p.events.append(("block", i, S.val(p, i.args[1]), S.val(p, i.args[2]), base)); return True
    if i.callee in ("free", "_aligned_free"):
        p.events.append(("free", i, S.val(p, i.args[0]))); return True
    if i.is_call() and short(i.dem) in ("std::min", "std::max") and len(i.args) == 2:
        v = [cell(S, p, x) for x in i.args]
        t = ("tmp", i.i); p.mem[(t, 0)] = ("w", ("umin" if "min" in i.dem else "umax", v[0], v[1])); p.env[i.i] = ("ptr", t, 0); return True
    if i.callee in ("aligned_alloc", "malloc"): raise Broken("allocation through %s is not modelled" % i.callee)

def allocs(f):
    PT = Paths(f, hook=free_hook); out = []
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        b = [e for e in p.events if e[0] == "block"]
        res = p.events[-1][2]
        ok = b and not any(failed(t, tr) for t, tr in p.facts.items())
        out.append((p, b[0][2:5] if ok else None, res))
    return out
def failed(t, tr):
    if t[0] == "icmp" and t[2][0:1] == ("allocfail",) and t[3] == ("k", 0): return (t[1] == "ne") == tr
    return False
def cell(S, p, x):
    t = p.mem.get(S.obj(p, x))
    if t is None or t[0] != "w": raise Broken("operand of std::min is not a local value")
    return t[1]
