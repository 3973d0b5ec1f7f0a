"""C05: sizes and counts supplied through the C and Python interfaces are never silently narrowed.
Interprocedural taint of caller-supplied numbers (and of the lengths of caller-supplied buffers) from every entry point;
each narrowing conversion and each narrower loop counter they meet must be preceded by a range check that proves it exact."""
import re
from .. import ir, gmp, pyapi
from ..ir import short, Broken
from ..lin import Lin, K, entails
from .. import lin as L_

ARITH = ("add", "sub", "mul", "udiv", "sdiv", "shl", "lshr", "ashr", "or", "xor", "zext", "sext", "freeze", "select", "phi")
CTOR = re.compile(r"::(basic_string|vector|deque|array|unique_ptr|shared_ptr)\(|::(operator=|assign|resize|reserve|swap|append|push_back|emplace_back)(\(|<|$)")
INS = re.compile(r"::(insert|append|assign)(\(|<|$)")

def w(ty): return L_.width(ty) or 0
def isrepo(f): return bool(f.file) and ir.rel(f.file).startswith("src/")
def stdish(f): return short(f.dem).lstrip("void ").startswith(("std::", "__gnu", "boost::", "pybind11::"))

def bare(head):
    """a function name without its template arguments"""
    while True:
        t = re.sub(r"<[^<>]*>", "", head)
        if t == head: return t
        head = t

class Taint:
    def __init__(s, M, roots, entry):
        s.M = M; s.entry = entry
        s.val = {}      # (fn, value) -> kind: n number, it iterator by a number, ci iterator of a caller's container
        s.loc = {}      # (fn, base, off) -> n / c
        s.ret = {}      # fn -> kind
        s.work = []; s.q = set(); s.callers = {}
        s.uses = {}
        for n, f in M.funcs.items():
            for i in f.calls():
                if i.callee in M.funcs: s.callers.setdefault(i.callee, []).append((n, i))
        for n, seeds, locs in roots:
            for v in seeds: s.setv(n, v, "n")
            for b in locs: s.setl(n, b, 0, "c")
            s.push(n)
        todo = [n for n, _, _ in roots]; seen = set()
        while todo:
            n = todo.pop()
            if n in seen or n not in M.funcs or not M.funcs[n].blocks: continue
            seen.add(n)
            if isrepo(M.funcs[n]): s.push(n)
            todo += [i.callee for i in M.funcs[n].calls() if i.callee]
    def push(s, n):
        if n not in s.q: s.q.add(n); s.work.append(n)
    def setv(s, n, v, k):
        if v[0] == "c": return
        o = s.val.get((n, v))
        if o == k or o == "ci" and k == "it": return
        s.val[(n, v)] = k; s.push(n)
    def setl(s, n, b, off, k):
        o = s.loc.get((n, b, off))
        if o == k or o == "c": return
        s.loc[(n, b, off)] = k; s.push(n)
        if b[0] == "a":
            for m, i in s.callers.get(n, []): s.push(m)
    def at(s, n, b, off):
        r = s.loc.get((n, b, off))
        if r is None and off is None: return next((k for (m, x, o), k in s.loc.items() if m == n and x == b), None)
        return r
    def under(s, n, f, v):
        """taint of what the pointer v points to"""
        if v[0] not in ("v", "a"): return None
        b, off = f.base_off(v)
        return s.at(n, b, off)
    def run(s):
        while s.work:
            n = s.work.pop(); s.q.discard(n)
            f = s.M.funcs[n]
            s.one(n, f)
        return s
    def kind(s, n, v): return s.val.get((n, v)) if v[0] in ("v", "a") else None
    def one(s, n, f):
        ch = True
        while ch:
            before = len(s.val) + len(s.loc) + len(s.ret)
            for i in f.all(): s.inst(n, f, i)
            ch = len(s.val) + len(s.loc) + len(s.ret) != before
    def inst(s, n, f, i):
        v = ("v", i.i); op = i.op
        if op in ARITH or op == "trunc":
            ops = [x for x, _ in f.phi_inc(i)] if op == "phi" else i.ops[1:] if op == "select" else i.ops
            ks = [s.kind(n, x) for x in ops]
            k = next((k for k in ks if k), None)
            if k: s.setv(n, v, k)
        elif op == "and":
            for a, b in (i.ops, i.ops[::-1]):
                if s.kind(n, a) and (b[0] != "c" or int(b[1]) < 0 or int(b[1]) >= 1 << 16): s.setv(n, v, "n")
        elif op in ("urem", "srem"):
            if s.kind(n, i.ops[1]): s.setv(n, v, "n")
        elif op == "getelementptr":
            k = s.kind(n, i.ops[0])
            if k: s.setv(n, v, k)
            if any(s.kind(n, tuple(x[0])) for x in i.d.get("voff", [])):
                b, _ = f.base_off(i.ops[0])
                s.setv(n, v, "ci" if b in s.entry.get(n, ()) or k == "ci" else "it")
        elif op == "ptrtoint":
            if s.kind(n, i.ops[0]): s.setv(n, v, "n")
        elif op == "inttoptr":
            if s.kind(n, i.ops[0]): s.setv(n, v, "it")
        elif op in ("extractvalue", "insertvalue"):
            k = next((k for k in (s.kind(n, x) for x in i.ops if x[0] in ("v", "a")) if k), None)
            if k: s.setv(n, v, k)
        elif op == "load":
            k = s.under(n, f, i.ops[0])
            if k == "n" and w(i.ty) >= 16: s.setv(n, v, "n")
            elif k in ("it", "ci"): s.setv(n, v, k)
            elif s.kind(n, i.ops[0]) == "ref" and w(i.ty) >= 16: s.setv(n, v, "n")
        elif op == "store":
            k = s.kind(n, i.ops[0])
            if k and k != "ref":
                b, off = f.base_off(i.ops[1])
                j = f.inst(b)
                if b[0] == "a" or j is not None and j.op == "alloca": s.setl(n, b, off, k)
            if i.ops[0][0] in ("v", "a"):
                # a pointer to a tainted number kept in a closure is followed only by inlining
                pass
        elif op == "ret":
            if i.ops and s.kind(n, i.ops[0]) and n not in s.ret:
                s.ret[n] = s.kind(n, i.ops[0])
                for m, _ in s.callers.get(n, []): s.push(m)
        elif i.is_call() and i.callee: s.call(n, f, i, v)
    def call(s, n, f, i, v):
        c = i.callee
        if c.startswith("llvm."):
            if c.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.bswap", "llvm.usub.sat", "llvm.abs")) and any(s.kind(n, a) for a in i.args): s.setv(n, v, "n")
            if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                k = s.under(n, f, i.args[1])
                if k:
                    b, off = f.base_off(i.args[0]); s.setl(n, b, off, k)
            return
        args = [(a, s.kind(n, a), s.under(n, f, a)) for a in i.args]
        g = s.M.funcs.get(c)
        if g is not None and g.blocks and isrepo(g):
            for k, (a, va, la) in enumerate(args):
                if k >= len(g.params): continue
                if va and va != "ref": s.setv(c, ("a", k), va)
                if a[0] in ("v", "a"):
                    b, off = f.base_off(a)
                    for (m, x, o), kk in list(s.loc.items()):
                        if m == n and x == b and off is not None and o is not None: s.setl(c, ("a", k), o - off, kk)
                    for (m, x, o), kk in list(s.loc.items()):
                        if m == c and x == ("a", k) and off is not None and o is not None:
                            j = f.inst(b)
                            if b[0] == "a" or j is not None and j.op == "alloca": s.setl(n, b, o + off, kk)
            if c in s.ret: s.setv(n, v, s.ret[c])
            return
        if gmp.is_gmp(i.callee):
            # (the extended-gcd and reduction code measures its own intermediate numbers)
            if i.callee in ("__gmpz_sizeinbase", "__gmpz_size") and not re.search(r"xgcd_partial|Reducer|nucomp", ir.rel(f.file)): s.setv(n, v, "n")
            return
        if not any(va or la for a, va, la in args): return
        d = i.dem
        head = d.split("(")[0]
        cont = any(la == "c" for a, va, la in args) or any(va == "ci" for a, va, la in args)
        if w(i.ty) >= 16:
            if re.search(r"operator\[\]|::at$|compare|find|memcmp|strcmp|::stat$", head): return
            s.setv(n, v, "n")
        elif i.ty == "ptr":
            if re.search(r"std::(min|max|clamp)<", d) and any(la == "n" for a, va, la in args): s.setv(n, v, "ref")
            elif re.search(r"operator\[\]|::at$|::data$|c_str$", head) and not cont: return
            else: s.setv(n, v, "ci" if cont else "it")
        if i.args:
            last = bare(head).split("::")[-1]
            dst = i.args[0]
            others = args[1:]
            hit = any(va in ("n", "it", "ci") or la == "c" for a, va, la in others)
            if last in ("insert", "append", "copy"): hit = any(va == "ci" or la == "c" for a, va, la in others)
            if "operator std::" in head and args[0][2] is None and any(la == "c" for a, va, la in others): hit = True; last = "operator="
            if hit and (last in ("vector", "basic_string", "string", "operator=", "assign", "resize", "swap", "append", "insert", "to_string", "substr") or i.d.get("sret")):
                b, off = f.base_off(dst); j = f.inst(b)
                if b[0] == "a" or j is not None and j.op == "alloca": s.setl(n, b, off, "c")

def sites(T):
    """narrowings and narrower counters met by caller-supplied numbers"""
    out = []
    for n, f in T.M.funcs.items():
        for i in f.all():
            if i.op == "trunc" and T.kind(n, i.ops[0]) and w(i.ty) >= 8:
                out.append((n, f, i, "narrow"))
            elif i.op == "and" and any(T.kind(n, a) and b[0] == "c" and 0 < int(b[1]) & (2 ** 64 - 1) < 2 ** (w(i.ty)) - 1 and (int(b[1]) & (int(b[1]) + 1)) == 0 and int(b[1]) >= 2 ** 16 - 1 and w(i.ty) > 32 for a, b in (i.ops, i.ops[::-1])):
                out.append((n, f, i, "mask"))
            elif i.op == "icmp":
                for a, b in (i.ops, i.ops[::-1]):
                    if not T.kind(n, a): continue
                    j = f.inst(b)
                    if j is not None and j.op in ("zext", "sext") and not T.kind(n, b):
                        p = f.inst(j.ops[0])
                        if p is not None and w(p.ty) >= 8 and (p.op == "phi" and p.bb in f.loops() or p.op in ("add", "sub")): out.append((n, f, i, "counter"))
    return out

PICO = re.compile(r"^picosha2::")
def roots_of(tu, M):
    roots = []; entry = {}
    if tu == "c_wrapper":
        fs = [(n, 0, f) for n, f in M.funcs.items() if ir.rel(f.file or "").endswith("c_wrapper.cpp") and not n.startswith("_")]
        fs = [x for x in fs if x[1] or "GLOBAL" not in x[0] and x[0] != "__cxx_global_var_init"]
        if len(fs) < 4: raise Broken("C entry points not found")
    else:
        fs = [(mn, 1, M.funcs[mn]) for name, (mn, dem, i) in pyapi.pybind_defs().items() if mn in M.funcs]
        if len(fs) < 8: raise Broken("Python entry points not found")
    for n, skip, f in fs:
        roots.append((n, [("a", k) for k, p in enumerate(f.params) if w(p["ty"]) >= 16], [("a", k) for k, p in enumerate(f.params) if skip and p["ty"] == "ptr" and k > 0]))
        entry[n] = {("a", k) for k, p in enumerate(f.params) if p["ty"] == "ptr"}
    return roots, entry

def run(R):
    R.rule("C05.narrow", "every narrowing of a caller-supplied size or count happens after a range check on that value that makes it exact", floor=1)
    R.rule("C05.counter", "a counter compared with a caller-supplied count is at least as wide as the count can be", floor=2)
    R.rule("C05.cast", "checked_cast returns a value only when it equals its argument, for every pair of integer types", floor=64)
    casts(R)
    for tu in ("c_wrapper", "fastvdf"): unit(R, tu)
    R.assume_("integers produced by floating-point estimates (the proof parameters k and l) and the words inside the hash function are not caller-supplied sizes; Python integers outside a parameter's declared type are rejected by pybind11's casters")

def unit(R, tu):
    G = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    roots, entry = roots_of(tu, G)
    T = Taint(G, roots, entry).run()
    for n, a, b in roots: R.saw("entry points", "%s %s" % (tu, short(G.funcs[n].dem) + ":%d" % G.funcs[n].line))
    tf = {n for n, v in T.val} | {n for n, b, o in T.loc}
    if len(tf) < 15: raise Broken("caller-supplied numbers do not reach the computation in " + tu)
    for n in sorted(tf): R.saw("functions reached", "%s %s" % (tu, short(G.funcs[n].dem)))
    S = [x for x in sites(T) if not PICO.match(short(x[1].dem))]
    helper = {n for n, f in G.funcs.items() if isrepo(f) and f.blocks and n not in entry and (f.ret == "i1" and not f.loops() and sum(len(b.insts) for b in f.blocks) < 60 or "::local" in short(f.dem))}
    J = Judge(R, T, G, tu, helper, set(entry))
    for n, f, i, kind in S: J.site(n, f, i, kind)
    # every loop whose bound is a caller's count
    for n in sorted(tf):
        f = G.funcs[n]
        for h, body in f.loops().items():
            for b in body:
                t = f.blocks[b].term
                if t.op == "br" and any(x not in body for x in f.blocks[b].succ):
                    c = f.inst(t.ops[0])
                    if c is not None and c.op == "icmp" and any(T.kind(n, x) for x in c.ops) and not any(s[2] is c for s in S):
                        R.ok("C05.counter", "%s %s: the counter of the loop at %s is as wide as the count" % (tu, short(f.dem), c.where()))

LIM = re.compile(r"^std::numeric_limits<([a-z ]+)>::(max|min|lowest)\(\)$")
def limits(i, m):
    """the limits of the integer types are constants"""
    mm = LIM.match(i.dem or "") if i.is_call() else None
    if not mm or mm.group(1) not in INTS: return None
    k, sg = INTS[mm.group(1)]
    v = ((1 << (k - 1)) - 1 if sg else (1 << k) - 1) if mm.group(2) == "max" else (-(1 << (k - 1)) if sg else 0)
    return K(v % (1 << k) if m == "U" else v - (1 << k) if v >= 1 << (k - 1) else v)

class Judge:
    def __init__(s, R, T, G, tu, helper, entry): s.R = R; s.T = T; s.G = G; s.tu = tu; s.helper = helper; s.entry = entry; s.cache = {}
    def view(s, n, also):
        k = (n, frozenset(also))
        if k not in s.cache:
            h = s.helper | set(also)
            V = ir.view_if(s.tu, lambda file, m, d: m == n, lambda file, m, d: m not in h or m == n, passes="always-inline,function(sroa<modify-cfg>)")
            s.cache[k] = V.funcs.get(n)
        return s.cache[k]
    def site(s, n, f, i, kind):
        sh = short(f.dem); text = {"narrow": "narrows a caller-supplied size or count without a range check that makes it exact", "mask": "cuts a caller-supplied size or count down with a mask", "counter": "counts to a caller-supplied number in a counter that may be too narrow for it"}[kind]
        rule = "C05.counter" if kind == "counter" else "C05.narrow"
        ok = s.prove(n, [], i, kind, 3)
        if rule == "C05.narrow": s.R.check(rule, ok, i.where(), "%s %s" % (sh, text if not ok else "narrows exactly"), inst="%s %s %s: %s is exact" % (s.tu, sh, i.where(), i.op), key="%s %s" % (sh, i.d.get("where", "") or kind))
        else: s.R.check(rule, ok, i.where(), "%s %s" % (sh, text if not ok else "counts in a wide enough counter"), inst="%s %s %s: counter wide enough" % (s.tu, sh, i.where()), key="%s counter" % sh)
    def prove(s, n, chain, i, kind, depth):
        f = s.view(n, chain)
        if f is None: return False
        hits = [j for j in f.all() if j.op == i.op and j.where() == i.where() and (kind != "narrow" or w(j.ty) == w(i.ty))]
        if not hits and not chain: return False
        if all(s.exact(f, j, kind) for j in hits): return True
        if n in s.entry or depth == 0: return False
        cs = {m for m, _ in s.T.callers.get(n, [])}
        cs = {m for m in cs if any(x == m for x, v in s.T.val) or any(x == m for x, b, o in s.T.loc)}
        return bool(cs) and all(s.prove(m, chain + [n], i, kind, depth - 1) for m in cs)
    def exact(s, f, i, kind):
        L = Lin(f, limits)
        if kind == "narrow":
            k = w(i.ty); hi = (1 << k) - 1 if unsigned(s.G, f, i) else (1 << (k - 1)) - 1; lo = 0 if unsigned(s.G, f, i) else -(1 << (k - 1))
            return fits(L, i.ops[0], lo, hi, i.bb)
        if kind == "mask":
            a, b = i.ops if i.ops[1][0] == "c" else i.ops[::-1]
            return fits(L, a, 0, int(b[1]) & (2 ** 64 - 1), i.bb)
        for a, b in (i.ops, i.ops[::-1]):
            j = f.inst(b)
            if j is not None and j.op in ("zext", "sext"):
                k = w(f.inst(j.ops[0]).ty) if f.inst(j.ops[0]) is not None else 64
                if fits(L, a, 0, (1 << k) - 1 if j.op == "zext" else (1 << (k - 1)) - 1, i.bb): return True
        return False

def twins(L, F):
    """a number that is nonnegative reads the same signed and unsigned"""
    at = {a for e in F for a in e.t if isinstance(a, tuple)}
    out = []
    for a in at:
        if a[0] == "S" and ("U", a[1]) in at:
            S_, U_ = L_.A(a), L_.A(("U", a[1])); k = L.wty(a[1]) or 64
            if entails(F, S_) or entails(F, K((1 << k - 1) - 1) - U_): out += [S_ - U_, U_ - S_]
    return F + out

def fits(L, v, lo, hi, bb):
    for m in "US":
        def q():
            e = L.ex(v, m)
            if e.const() is not None: return lo <= e.c <= hi
            F = twins(L, L.close(L.facts(bb) + L.range_facts(e)))
            return entails(F, e - K(lo)) and entails(F, K(hi) - e)
        if L.rounds(q): return True
    return False

UNS = re.compile(r"unsigned|size_t|uint")
def unsigned(G, f, i):
    """every use of the narrowed value reads it as unsigned"""
    from ..world import params
    todo = [i]; seen = set(); some = False
    while todo:
        x = todo.pop()
        if x.i in seen: continue
        seen.add(x.i); v = ("v", x.i)
        for u in f.all():
            ops = [q for q, _ in f.phi_inc(u)] if u.op == "phi" else list(u.ops) + list(u.args)
            if v not in ops: continue
            some = True
            if u.op in ("sext", "sdiv", "srem", "sitofp", "ashr", "ret"): return False
            if u.op in ("add", "sub", "mul", "shl") and u.d.get("nsw") and not u.d.get("nuw"): return False
            if u.op == "icmp" and u.d["pred"][0] == "s": return False
            if u.is_call() and u.callee and not u.callee.startswith("llvm."):
                ps = params(u.dem)
                if ps is None: return False
                off = len(u.args) - len(ps)
                for k, a in enumerate(u.args):
                    if a == v and (k - off < 0 or not UNS.search(ps[k - off])): return False
            if u.op in ("phi", "select", "add", "sub", "mul", "and", "or", "freeze"): todo.append(u)
            if u.op == "store" and ops[0] == v and w(i.ty) > 8:
                return False
    return some

# ------------------------------------------------------------------ checked_cast
INTS = {"signed char": (8, 1), "char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0)}
def casts(R):
    M = ir.view_if("castpairs", lambda f, m, d: "checked_cast<" in d, lambda f, m, d: False, passes="always-inline,function(sroa<modify-cfg>)")
    R.saw("units", "castpairs")
    n = 0
    for f in M.funcs.values():
        mm = re.search(r"checked_cast<([a-z ]+), ([a-z ]+)>\(", f.dem)
        if not mm or mm.group(1) not in INTS or mm.group(2) not in INTS: continue
        n += 1
        (tw, ts), (fw, fs) = INTS[mm.group(1)], INTS[mm.group(2)]
        lo, hi = (-(1 << tw - 1), (1 << tw - 1) - 1) if ts else (0, (1 << tw) - 1)
        L = Lin(f, limits); m = "S" if fs else "U"
        bad = None; rets = 0
        for i in f.all():
            if i.op != "ret": continue
            rets += 1
            def q():
                e = L.ex(("a", 0), m)
                F = twins(L, L.close(L.facts(i.bb) + L.range_facts(e)))
                return entails(F, e - K(lo)) and entails(F, K(hi) - e)
            v = i.ops[0]
            while v != ("a", 0):
                j = f.inst(v)
                if j is None or j.op not in ("trunc", "zext", "sext") or j.op == "sext" and not fs or j.op == "zext" and fs and not L.rounds(lambda: L.nonneg(L.ex(("a", 0), m), i.bb)): break
                v = j.ops[0]
            if v != ("a", 0) or not L.rounds(q): bad = i
        R.check("C05.cast", bad is None and rets > 0, (bad or f.blocks[0].insts[0]).where(), "checked_cast<%s, %s> %s" % (mm.group(1), mm.group(2), "returns a value different from its argument for some argument" if bad or not rets else "is exact"), inst="checked_cast<%s, %s>" % mm.groups(), key="cast %s %s" % mm.groups())
    if n < 64: raise Broken("only %d instances of checked_cast" % n)
