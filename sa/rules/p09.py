"""P09: the two threads of the squaring pipeline synchronise only through their counters, and in agreement.
Happens-before analysis over the fences: for every pair of accesses of the two roles to the same part of the shared
state, at least one of them writing, the fences passed before one of them must prove the other finished."""
import re
from .. import ir, gmp
from ..ir import short, Broken
from ..world import World
from ..lin import Lin, K as LK

FOLD = "function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)"
ONEP = "always-inline," + FOLD + "," + FOLD
UNROLL = "always-inline," + FOLD + ",function(loop-mssa(loop-rotate),loop-unroll-full)," + FOLD
ROLES = {"m": ("master_counter", "slave_counter"), "s": ("slave_counter", "master_counter")}
PHASE = re.compile(r"^square_state_type::phase_(\d)_(master|slave)$")
ACQ = {"load": {2, 4, 5, 1}, "store": {3, 4, 5}}

def run(R):
    R.rule("P09.atomic", "every access to the partner-visible counters is an atomic one with acquire/release or stronger ordering", floor=6)
    R.rule("P09.fence", "a fence succeeds only after the partner's counter was seen to have reached the requested value (or an earlier fence saw it)", floor=6)
    R.rule("P09.advance", "an advance publishes the requested value in the thread's own counter, and fails when an error has been raised", floor=4)
    R.rule("P09.leave", "the spin loop of a fence is left when an error is reported or a spin limit is exceeded, and raising an error marks both threads", floor=4)
    R.rule("P09.numbers", "the counter values of the phases are increasing and far enough apart for the values published inside a phase", floor=5)
    R.rule("P09.phase", "the phase dispatch calls the function of the requested phase and role", floor=10)
    R.rule("P09.worker", "each worker announces a phase, runs it, and after the last one moves its counter base on; any failure is raised to the partner and ends the batch without another phase or report", floor=8)
    R.rule("P09.batch", "a batch resets both counters and initialises the state before the second thread starts, runs one thread in each role, and looks at the result only after joining", floor=4)
    R.rule("P09.examined", "when a fence, hand-over or gcd fails, the phase function reports failure and uses nothing it did not get", floor=12)
    R.rule("P09.hand", "an entry is handed over only when the partner's counter says it is complete and its index is inside the table; producer and consumer use the same counter base", floor=6)
    R.rule("P09.order", "two accesses of different threads to the same data, one of them a write, are ordered by a fence", floor=12)
    R.saw("units", "vdf_client (with the synchronisation probes of tu/p09.cpp)")
    A = ir.view_if("p09", lambda f, m, d: bool(re.match(r"p09_(fence|advance|raise|haserror|start|end|phases|entries|call)", d)), lambda f, m, d: short(d) in ("print",) or bool(PHASE.match(short(d))), passes=ONEP)
    P = {short(f.dem): f for f in A.funcs.values()}
    X = numbers(R, P)
    probes(R, A, P)
    atomics(R)
    calls = dispatch(R, P, X)
    KEEP = re.compile(r"^(thread_state::|gcd_results_type.*::get_entry|gcd_unsigned|mpz_impl_set_mul|square_state_type::(phase_\d_(master|slave)$|assign|call_phase|init)|repeated_square_fast_work|p09_)")
    ROOT = lambda f, m, d: bool(re.match(r"(square_state_type::(phase_\d_(master|slave)|assign)\(|p09_work|.*gcd_unsigned<|gcd_results_type.*::get_entry\()", d)) or short(d) == "repeated_square_fast_multithread"
    B = ir.view_if("p09", ROOT, lambda f, m, d: bool(KEEP.match(short(d))) and not (short(d) == "repeated_square_fast_work"), passes=UNROLL)
    W = ir.view_if("p09", lambda f, m, d: short(d) == "repeated_square_fast_multithread", lambda f, m, d: bool(KEEP.match(short(d))), passes=UNROLL)
    on = workers(R, B, X, calls)
    batch(R, W)
    hand(R, B, X)
    order(R, B, X, on)
    R.assume_("the assembler gcd publishes its counter increments in program order (x86 total store order) and only inside its own phase")
    R.assume_("the single-threaded variant is not reached (threads are always enabled in this configuration)")

# ------------------------------------------------------------------ constants
class Num: pass
def retconst(f):
    rs = [i for i in f.all() if i.op == "ret"]
    if len(rs) != 1 or not rs[0].ops or rs[0].ops[0][0] != "c": raise Broken("%s does not fold to a constant" % short(f.dem))
    return int(rs[0].ops[0][1])

def numbers(R, P):
    X = Num()
    try:
        X.S = [retconst(P["p09_start%d" % k]) for k in range(5)]; X.END = retconst(P["p09_end"]); X.N = retconst(P["p09_phases"]); X.E = retconst(P["p09_entries"])
    except KeyError as e: raise Broken("probe %s is missing" % e)
    R.check("P09.numbers", X.S[0] >= 0, "src/vdf_fast.h", "the first phase starts at %d" % X.S[0], key="start0")
    seq = X.S + [X.END]
    for k in range(5):
        need = X.E if k in (0, 1) else 0
        R.check("P09.numbers", seq[k] + need < seq[k + 1], "src/vdf_fast.h", "phase %d publishes up to %d and the next one starts at %d" % (k, seq[k] + need, seq[k + 1]), key="step%d" % k)
    R.check("P09.numbers", X.N == 5, "src/vdf_fast.h", "%d phases are run" % X.N, key="phases")
    X.S.append(X.END)
    return X

# ------------------------------------------------------------------ atomics
def atom(f, i):
    """(mode, counter global, member offset, ordering constant) of an atomic access to a counter"""
    if i.op in ("load", "store", "atomicrmw") and i.d.get("atomic"):
        g = where(f, i.ops[1] if i.op == "store" else i.ops[0])
        if g is None: return None
        o = {"monotonic": 0, "unordered": 0, "acquire": 2, "release": 3, "acq_rel": 4, "seq_cst": 5}.get(i.d["atomic"])
        return {"load": "r", "store": "w"}.get(i.op, "rw"), g[0], g[1], o
    if not i.is_call() or not i.args: return None
    sh = short(i.dem)
    if not sh.startswith(("std::atomic", "std::__atomic_base")): return None
    g = where(f, i.args[0])
    if g is None: return None
    last = sh.split("::")[-1].split("[")[0].strip()
    if last in ("load",) or last.startswith("operator bool") or last.startswith("operator unsigned") or last.startswith("operator "):
        if last == "operator=": mode = "w"
        elif last in ("operator++", "operator--", "operator+=", "operator-="): mode = "rw"
        else: mode = "r"
    elif last in ("store",) or last == "operator=": mode = "w"
    elif last in ("exchange", "fetch_add", "fetch_sub", "compare_exchange_strong", "compare_exchange_weak", "operator++", "operator+="): mode = "rw"
    else: return None
    o = None
    if last in ("load", "store", "exchange", "fetch_add", "fetch_sub"):
        a = i.args[-1]; o = int(a[1]) if a[0] == "c" else None
    else: o = 5
    return mode, g[0], g[1], o

def where(f, v):
    """(global name, offset inside one counter) of an address inside master_counter / slave_counter"""
    off = 0
    for _ in range(20):
        i = f.inst(v)
        if i is None: break
        if i.op != "getelementptr": return None
        off += i.d.get("off", i.d.get("coff", 0)) or 0
        v = i.ops[0]
    if v and v[0] == "g" and v[1] in ("master_counter", "slave_counter"): return v[1], (off + v[2]) % 64
    return None

def atomics(R):
    M = ir.view("p09", allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    st = M.structs.get("thread_counter")
    if not st: raise Broken("thread_counter not found")
    for m in st["members"]:
        if m["name"] in ("counter_value", "error_flag") or m["size"] and m["name"] != "<base>":
            R.check("P09.atomic", "atomic" in m["type"], "src/threading.h", "thread_counter::%s is %s" % (m["name"], m["type"]), key=m["name"])
    n = 0
    for f in M.funcs.values():
        if "__cxx_global" in f.dem or f.name.startswith("_GLOBAL__"): continue
        for i in f.all():
            if not i.is_call() or not i.args: continue
            sh = short(i.dem)
            if not sh.startswith(("std::atomic", "std::__atomic_base")): continue
            if not any(x.startswith("thread_counter::") for x in f.fields_of(i.args[0])): continue
            last = sh.split("::")[-1].split("[")[0].strip()
            if last in ("load", "store", "exchange", "fetch_add", "fetch_sub"):
                a = i.args[-1]; o = int(a[1]) if a[0] == "c" else 5
                ok = o in (ACQ["load"] if last == "load" else ACQ["store"] if last == "store" else {4, 5})
                R.check("P09.atomic", ok, i.where(), "%s %ss a counter with memory order %d" % (short(f.dem), last, o), key="%s %s" % (short(f.dem), i.where()))
            else: R.ok("P09.atomic", "%s %s" % (i.where(), sh))
            n += 1
    if n < 4: raise Broken("only %d counter accesses found" % n)

class Pick(World):
    """remembers which operand each phi and select stood for on a path"""
    def picked(s, v, mem): return mem.get("y%d" % v[1], v) if v[0] == "v" else v
    def step(s, i, mem, e):
        if i.op == "select":
            c = s.val(i.ops[0], e)
            if c is not None:
                mem = dict(mem); mem["y%d" % i.i] = s.picked(i.ops[1] if c & 1 else i.ops[2], mem)
        return super().step(i, mem, e)
    def edge(s, b, z, mem, env):
        m2 = None
        for i in s.f.blocks[z].insts:
            if i.op != "phi": break
            if i.ty not in ("i64", "ptr"): continue
            for v, pb in s.f.phi_inc(i):
                if pb == b:
                    m2 = m2 or dict(mem)
                    m2["y%d" % i.i] = s.picked(v, mem)
        return m2 or mem

# ------------------------------------------------------------------ fence / advance / raise
class Prim(Pick):
    """paths of a synchronisation primitive with a fixed role"""
    def __init__(s, f, role, t):
        super().__init__(f); s.own, s.oth = ROLES[role]; s.t = t; s.bad = []; s.rets = []; s.exits = 0
    def start(s): return {}
    def answer(s, i, m, kn):
        a = atom(s.f, i)
        if a is None: return None
        mode, g, off, o = a
        if o not in (ACQ["load"] if mode == "r" else ACQ["store"] if mode == "w" else {4, 5}): s.bad.append((i, "accesses a counter without ordering"))
        w = "own" if g == s.own else "oth"
        put = i.ops[0] if i.op == "store" else i.args[1] if i.is_call() and len(i.args) > 1 else None
        if off == 8:
            if mode == "r":
                out = []
                for v in (0, 1):
                    if v == 0 and m.get(w + "flag"): continue
                    m2 = dict(m)
                    if v: m2[w + "flag"] = 1
                    out.append((v, m2))
                return out
            v = kn(put) if put else None; m2 = dict(m)
            if v: m2[w + "flag"] = 1
            else: m2.pop(w + "flag", None); s.bad.append((i, "clears an error flag"))
            return [(v, m2)]
        if mode != "r":
            m2 = dict(m)
            if w == "oth": s.bad.append((i, "writes the partner's counter"))
            m2["pub"] = put == s.t if s.t else True
            return [(None, m2)]
        return None
    def counter(s, v):
        i = s.f.inst(v)
        if i is None: return None
        a = atom(s.f, i)
        if a and a[0] == "r" and a[2] == 0: return "own" if a[1] == s.own else "oth"
        return None
    def step(s, i, mem, e):
        if i.op in ("store", "atomicrmw") and atom(s.f, i):
            out = s.answer(i, mem, lambda v: s.val(v, e))
            r = []
            for _, m2 in out: r += super().step(i, m2, e)
            return r
        if i.op == "icmp" and s.t is not None:
            a, b = i.ops; p = i.d["pred"]
            if a == s.t and b != s.t: a, b = b, a; p = {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}.get(p, p)
            if b == s.t:
                src = s.counter(a) or ("last" if a == s.last else None)
                if src:
                    out = []
                    for v in (0, 1):
                        m2 = dict(mem); e2 = dict(e); e2[("v", i.i)] = v
                        ge = {"ult": 1 - v, "uge": v, "ugt": v, "eq": v, "slt": 1 - v, "sge": v}.get(p, 0)
                        if ge and src in ("oth", "last"): m2["seen"] = 1
                        if ge and src == "own" and p == "eq": m2["pub"] = True
                        out.append((m2, e2))
                    return out
        return super().step(i, mem, e)
    last = None
    def at(s, i, mem): pass

def retval(w, i, e): return w.val(i.ops[0], e) if i.ops else None

def explore(w):
    """run and collect (value, memory) at returns"""
    rets = []
    orig = w.step
    def step(i, mem, e):
        if i.op == "ret": rets.append((i, w.val(i.ops[0], e) if i.ops else None, dict(mem), dict(e)))
        return orig(i, mem, e)
    w.step = step
    w.run(0)
    return rets

def probes(R, A, P):
    for r, rn in (("m", "master"), ("s", "slave")):
        f = P.get("p09_fence_" + r)
        if f is None: raise Broken("fence probe missing")
        w = Prim(f, r, ("a", 2)); w.last = ("a", 1)
        rets = explore(w)
        yes = [x for x in rets if x[1] != 0]
        loc = "src/threading.h"
        bad = [x for x in yes if not x[2].get("seen")]
        R.check("P09.fence", bool(yes) and not bad, loc, "the fence of the %s %s" % (rn, "succeeds only when the partner reached the value" if yes and not bad else "can succeed although the partner has not reached the value" if bad else "never succeeds"), key="fence " + rn)
        R.check("P09.fence", not w.bad, loc, "the fence of the %s %s" % (rn, "changes no counter" if not w.bad else w.bad[0][1]), key="fence clean " + rn)
        # what later fences rely on
        lf = [(i, src) for i, src in lastvals(f, w)]
        R.check("P09.fence", not lf, loc, "the fence of the %s remembers %s" % (rn, "only values it has seen" if not lf else "a value it has not seen"), key="fence memory " + rn)
        # relative form
        g = P["p09_fencerel_" + r]
        cmpd = set()
        wg = Prim(g, r, None)
        for i in g.all():
            if i.op == "icmp":
                for a, b in (i.ops, i.ops[::-1]):
                    if wg.counter(a) == "oth": cmpd.add(lf_key(linform(g, b)))
        want = lf_key({("a", 1): 1, ("sext", ("a", 2)): 1})
        R.check("P09.fence", cmpd == {want}, loc, "the relative fence of the %s waits for %s" % (rn, "its counter base plus the given offset" if cmpd == {want} else "another value"), key="fence rel " + rn)
        # spin loop
        for L in f.loops().values():
            errs = lim = False
            for b in L:
                t = f.blocks[b].term
                if t.op != "br" or len(set(t.d["succ"])) != 2: continue
                out = [z for z in t.d["succ"] if z not in L or leaves(f, z, L)]
                if not out: continue
                c = f.inst(t.ops[0])
                for j in srcs(f, c):
                    a = atom(f, j)
                    if a and a[2] == 8: errs = True
                if c is not None and c.op == "icmp":
                    for o, q in (c.ops, c.ops[::-1]):
                        oi = f.inst(o)
                        if q[0] == "c" and oi is not None and counts(f, oi, L): lim = True
            R.check("P09.leave", errs or lim, loc, "the wait loop of the %s's fence is left %s" % (rn, " and ".join((["on an error report"] if errs else []) + (["after a bounded number of rounds"] if lim else [])) or "only when the partner arrives"), key="loop " + rn)
        g = P["p09_raise_" + r]
        w = Prim(g, r, None); rets = explore(w)
        ok = all(m.get("ownflag") and m.get("othflag") for _, _, m, _ in rets) and rets
        R.check("P09.leave", bool(ok), loc, "an error raised by the %s %s" % (rn, "marks both threads" if ok else "does not mark both threads"), key="raise " + rn)
        f = P["p09_advance_" + r]
        w = Prim(f, r, ("a", 1)); rets = explore(w)
        yes = [x for x in rets if x[1] != 0]
        ok = yes and all(m.get("pub") for _, _, m, _ in yes)
        R.check("P09.advance", bool(ok) and not w.bad, loc, "the advance of the %s %s" % (rn, "publishes the value" if ok and not w.bad else w.bad[0][1] if w.bad else "can succeed without publishing the value"), key="advance " + rn)
        err = [x for x in rets if x[1] != 0 and x[2].get("ownflag")]
        R.check("P09.advance", not err, loc, "the advance of the %s %s" % (rn, "fails once an error is raised" if not err else "succeeds although an error is raised"), key="advance err " + rn)
        g = P["p09_advancerel_" + r]
        st = [i for i in g.all() if (atom(g, i) or ("",))[0] == "w" and atom(g, i)[2] == 0]
        ok = st and all(lf_key(linform(g, i.ops[0] if i.op == "store" else i.args[1])) == want for i in st)
        R.check("P09.advance", bool(ok), loc, "the relative advance of the %s publishes %s" % (rn, "its counter base plus the given offset" if ok else "another value"), key="advance rel " + rn)
        h = P["p09_haserror_" + r]
        w = Prim(h, r, None); rets = explore(w)
        ok = rets and all((v == 1) == bool(m.get("ownflag")) or (v != 0 and m.get("othflag")) for _, v, m, _ in rets)
        R.check("P09.advance", bool(ok), loc, "the error query of the %s %s" % (rn, "answers its own flag" if ok else "does not answer its own flag"), key="haserror " + rn)

def leaves(f, z, L):
    """from z (inside L by name only) control leaves the loop without going round"""
    return False

def srcs(f, c, d=0):
    if c is None or d > 6: return
    yield c
    for o in c.ops:
        j = f.inst(o)
        if j is not None: yield from srcs(f, j, d + 1)

def counts(f, i, L):
    """a phi of the loop that grows by a constant every round"""
    if i.op in ("add", "sub"): i = f.inst(i.ops[0])
    if i is None or i.op != "phi": return False
    for v, b in f.phi_inc(i):
        if b not in L: continue
        j = f.inst(v)
        if j is None or j.op != "add" or j.ops[0] != ("v", i.i) and j.ops[1] != ("v", i.i): return False
        k = j.ops[1] if j.ops[0] == ("v", i.i) else j.ops[0]
        if k[0] != "c" or int(k[1]) == 0: return False
    return True

def lastvals(f, w0):
    """stores of a remembered fence value on paths that have not seen it"""
    bad = []
    class L(Prim):
        def step(s, i, mem, e):
            if i.op == "store" and i.ops[1] == ("a", 3):
                v = s.picked(i.ops[0], mem)
                if v == ("a", 2) and not mem.get("seen"): bad.append((i, v))
                elif v not in (("a", 1), ("a", 2)): bad.append((i, v))
            return super().step(i, mem, e)
    w = L(f, "m" if w0.own == "master_counter" else "s", ("a", 2)); w.last = ("a", 1)
    w.run(0)
    return bad

def linform(f, v, d=0):
    """linear form of a value over arguments and opaque instructions"""
    if v[0] == "c": return {(): int(v[1])} if int(v[1]) else {}
    i = f.inst(v)
    if i is None or d > 20: return {v: 1}
    if i.op in ("add", "sub"):
        a, b = linform(f, i.ops[0], d + 1), linform(f, i.ops[1], d + 1); k = 1 if i.op == "add" else -1
        r = dict(a)
        for x, c in b.items(): r[x] = r.get(x, 0) + k * c
        return {x: c for x, c in r.items() if c}
    if i.op in ("sext", "zext"):
        a = linform(f, i.ops[0], d + 1)
        return {(x if x == () else ("sext", x) if x[0] != "sext" else x): c for x, c in a.items()}
    if i.op == "freeze": return linform(f, i.ops[0], d + 1)
    if i.op == "load":
        n = fieldname(f, i.ops[0])
        if n: return {("ld", n): 1}
    return {v: 1}
def lf_key(d): return tuple(sorted(d.items(), key=repr))

def fieldname(f, v):
    """member name when the address is a member of the thread state"""
    i = f.inst(v); off = 0
    for _ in range(10):
        i = f.inst(v)
        if i is None or i.op != "getelementptr": break
        if "off" not in i.d: return None
        off += i.d["off"]; v = i.ops[0]
    i = f.inst(v)
    if i is not None and i.is_call() and short(i.dem).startswith("c_thread_state") or v[0] == "g" and "c_thread_state" in str(v[1]) or i is not None and i.is_call() and "threadlocal" in short(i.dem):
        m = f.mod.field_at("thread_state", off)
        return m[0] if m else None
    return None

# ------------------------------------------------------------------ phase dispatch
def dispatch(R, P, X):
    out = {}
    for r, rn in (("m", "master"), ("s", "slave")):
        for k in range(5):
            f = P.get("p09_call%d_%s" % (k, r))
            if f is None: raise Broken("dispatch probe missing")
            cs = [i for i in f.calls() if i.callee and PHASE.match(short(i.dem))]
            ind = [i for i in f.calls() if not i.callee and not i.dem.startswith("llvm.")]
            if ind: raise Broken("phase dispatch does not fold to a direct call")
            if len(cs) != 1:
                # an empty phase function may have been folded away by its own constant result
                R.bad("P09.phase", "src/vdf_fast.h", "phase %d of the %s calls %d phase functions" % (k, rn, len(cs)), key="%d %s" % (k, rn)); continue
            m = PHASE.match(short(cs[0].dem))
            ok = (int(m.group(1)), m.group(2)) == (k, rn)
            rv = [i for i in f.all() if i.op == "ret"]
            ok2 = all(i.ops and i.ops[0] == ("v", cs[0].i) for i in rv)
            R.check("P09.phase", ok and ok2, "src/vdf_fast.h", "phase %d of the %s runs %s%s" % (k, rn, short(cs[0].dem), "" if ok2 else " and loses its result"), key="%d %s" % (k, rn))
            out[(k, rn)] = cs[0].callee
    return out

# ------------------------------------------------------------------ workers
class Work(World):
    def __init__(s, f, role, X, calls):
        super().__init__(f); s.role = role; s.X = X; s.calls = calls; s.bad = {}; s.on = []; s.seen_ev = set()
    def start(s): return {"pos": ("a", 0), "role": None, "base": 0, "on": 0, "pair": 0, "fresh": 0, "fl": 0}
    def err(s, i, t): s.bad.setdefault((i.where(), t), i); return [(None, None)]
    def answer(s, i, m, kn):
        if not i.is_call(): return None
        sh = short(i.dem); pos = m["pos"]
        if sh in ("thread_state::advance", "thread_state::advance_absolute"):
            if pos[0] == "e":
                if m["base"] != 1: s.bad.setdefault((i.where(), "the counter base is not moved on by one iteration before the next one starts"), i)
                pos = ("a", 0)
            if pos[0] != "a": s.bad.setdefault((i.where(), "advances out of order"), i); pos = ("a", 0)
            if m["role"] != (1 if s.role == "slave" else 0): s.bad.setdefault((i.where(), "starts without its role set"), i)
            if not m["pair"]: s.bad.setdefault((i.where(), "starts without the counter pair of its own state"), i)
            if not (m["fresh"] or m.get("cs") and m["fl"]): s.bad.setdefault((i.where(), "starts with the counter base or fence memory of an earlier batch"), i)
            c = kn(i.args[1])
            if c != s.X.S[pos[1]]: s.bad.setdefault((i.where(), "announces %s before phase %d" % (c, pos[1])), i)
            s.seen_ev.add(("adv", pos[1]))
            return [(1, dict(m, pos=("p", pos[1]), base=0, on=0)), (0, dict(m, pos=("f",)))]
        ph = None
        if sh == "square_state_type::call_phase":
            k, r = kn(i.args[1]), kn(i.args[2])
            if k is None or r is None: raise Broken("phase call with unknown phase or role at " + i.where())
            ph = (k, "slave" if r & 1 else "master")
        elif PHASE.match(sh):
            x = PHASE.match(sh); ph = (int(x.group(1)), x.group(2))
        if ph is not None:
            if pos != ("p", ph[0]): s.bad.setdefault((i.where(), "runs phase %d without having announced it" % ph[0]), i)
            if ph[1] != s.role: s.bad.setdefault((i.where(), "runs the %s part of phase %d" % (ph[1], ph[0])), i)
            s.seen_ev.add(("ph", ph[0]))
            n = ("a", ph[0] + 1) if ph[0] < 4 else ("e",)
            return [(1, dict(m, pos=n)), (0, dict(m, pos=("f",)))]
        if sh == "thread_state::raise_error":
            return [(None, dict(m, pos=("r",)))] if pos[0] in ("f", "r") else [(None, dict(m, pos=("r",)))]
        if sh == "thread_state::reset": return [(None, dict(m, role=0, fresh=1))]
        if not i.callee and any(a == ("a", 0) for a in i.args):
            if pos[0] != "e": s.bad.setdefault((i.where(), "reports an iteration that is not complete"), i)
            elif m["on"]: s.bad.setdefault((i.where(), "reports an iteration twice"), i)
            s.on.append(i)
            return [(None, dict(m, on=1))]
        return None
    def step(s, i, mem, e):
        if i.op == "store":
            n = fieldname(s.f, i.ops[1])
            if n == "pairindex":
                j = s.f.inst(i.ops[0])
                mem = dict(mem, pair=int(j is not None and j.op == "load" and "square_state_type::pairindex" in s.f.fields_of(j.ops[0])))
            elif n == "last_fence" and s.val(i.ops[0], e) == 0: mem = dict(mem, fl=1)
            elif n == "counter_start" and s.val(i.ops[0], e) == 0 and mem["pos"] == ("a", 0): mem = dict(mem, cs=1)
            elif n == "counter_start":
                lf = linform(s.f, i.ops[0])
                if mem["pos"][0] == "e" and lf == {("ld", "counter_start"): 1, (): s.X.END} and not mem["base"]: mem = dict(mem, base=1)
                else: s.bad.setdefault((i.where(), "changes its counter base other than by one iteration between iterations"), i)
            elif n == "is_slave":
                k = s.val(i.ops[0], e); mem = dict(mem, role=None if k is None else k & 1)
        if i.op == "ret" and mem["pos"][0] not in ("r", "e") and mem["pos"] != ("a", 0):
            s.bad.setdefault((i.where(), "ends the batch after a failure without raising it to the partner" if mem["pos"][0] == "f" else "stops in the middle of an iteration"), i)
        return super().step(i, mem, e)

def workers(R, B, X, calls):
    on = {}
    for r, rn in (("m", "master"), ("s", "slave")):
        f = next((f for f in B.funcs.values() if short(f.dem) == "p09_work_" + r), None)
        if f is None: raise Broken("worker probe missing")
        w = Work(f, rn, X, calls); w.run(0)
        if len(w.seen_ev) < 10 and not w.bad: raise Broken("the %s worker shows only %d events" % (rn, len(w.seen_ev)))
        for (at, t), i in w.bad.items(): R.bad("P09.worker", at, "the %s worker %s" % (rn, t), key="%s %s" % (rn, t))
        if not w.bad:
            for k in range(5):
                R.ok("P09.worker", "the %s announces and runs phase %d, and raises its failure" % (rn, k))
            R.ok("P09.worker", "the %s moves on by one iteration after the last phase" % rn)
        if w.on: on[rn] = w.on
    R.check("P09.worker", len(on) == 1, "src/vdf_fast.h", "iterations are reported by %s" % (" and ".join(on) or "neither worker"), key="one reporter")
    return on

# ------------------------------------------------------------------ batch
def batch(R, W):
    f = next(f for f in W.funcs.values() if short(f.dem) == "repeated_square_fast_multithread")
    loc = f.where() if hasattr(f, "where") else "src/vdf_fast.h"
    ev = {"init": [], "thread": [], "work": [], "join": [], "assign": [], "m0": [], "s0": [], "mf": [], "sf": []}
    roles = {}
    for i in f.all():
        if i.op == "store":
            a = atom(f, i)
            if a and i.ops[0][0] == "c" and int(i.ops[0][1]) == 0: ev[("m" if a[1] == "master_counter" else "s") + ("0" if a[2] == 0 else "f")].append(i)
        if not i.is_call(): continue
        sh = short(i.dem)
        if sh == "square_state_type::init": ev["init"].append(i)
        elif sh == "square_state_type::assign": ev["assign"].append(i)
        elif sh in ("std::thread::thread",) and i.callee and len(i.args) > 1:
            ev["thread"].append(i); roles[i.i] = threadrole(W, f, i)
        elif sh == "repeated_square_fast_work":
            ev["work"].append(i); k = i.args[1]; roles[i.i] = int(k[1]) & 1 if k[0] == "c" else None
        elif sh == "std::thread::join": ev["join"].append(i)
        else:
            a = atom(f, i)
            if a and a[0] == "w" and len(i.args) > 1 and i.args[1][0] == "c" and int(i.args[1][1]) == 0:
                ev[("m" if a[1] == "master_counter" else "s") + ("0" if a[2] == 0 else "f")].append(i)
    if not ev["thread"] or not ev["work"]: raise Broken("the two workers are not started where expected")
    D = f.dom()
    def dom(a, b): return (a.bb == b.bb and a.idx < b.idx) or (a.bb != b.bb and domb(f, a.bb, b.bb))
    t = ev["thread"][0]
    for k, n in (("init", "the state is initialised"), ("m0", "the master's counter is reset"), ("s0", "the slave's counter is reset"), ("mf", "the master's error flag is reset"), ("sf", "the slave's error flag is reset")):
        ok = bool(ev[k]) and all(any(dom(x, y) for x in ev[k]) for y in ev["thread"] + ev["work"])
        R.check("P09.batch", ok, t.where(), "%s %s" % (n, "before either thread runs" if ok else "not before both threads run"), key=k)
    rs = sorted(x for x in roles.values() if x is not None)
    R.check("P09.batch", rs == [0, 1], t.where(), "the two threads run in %s" % ("different roles" if rs == [0, 1] else "roles %s" % rs), key="roles")
    ok = bool(ev["assign"]) and all(any(dom(j, a) for j in ev["join"]) for a in ev["assign"])
    R.check("P09.batch", ok, t.where(), "the result is read %s" % ("after the join" if ok else "without having joined the other thread"), key="join")

def domb(f, a, b):
    D = f.dom()
    for _ in range(10000):
        n = D.get(b)
        if n is None or n == b: return False
        if n == a: return True
        b = n
    return False

def threadrole(W, f, i):
    for a in i.args[1:]:
        b = f.base_off(a)[0]
        j = f.inst(b)
        if j is not None and j.op == "alloca" and j.d.get("aty") in ("i8", "i1"):
            ss = [x for x in f.all() if x.op == "store" and x.ops[1] == b]
            if len(ss) == 1 and ss[0].ops[0][0] == "c": return int(ss[0].ops[0][1]) & 1
        if j is not None and j.op == "alloca" and "closure" in str(j.d.get("aty", "")) or j is not None and "anon" in str(j.d.get("aty", "")):
            A = ir.view("p09", allf=True, inline=False, passes=ir.SSA_ONLY)
            for g in A.funcs.values():
                if "repeated_square_fast_multithread" in g.dem and "operator()" in g.dem:
                    for c in g.calls():
                        if short(c.dem) == "repeated_square_fast_work" and c.args[1][0] == "c": return int(c.args[1][1]) & 1
    return None

# ------------------------------------------------------------------ hand-over
def hand(R, B, X):
    ge = [f for f in B.funcs.values() if short(f.dem).endswith("::get_entry")]
    if not ge: raise Broken("get_entry not found")
    for f in ge:
        want = {("sext", ("a", 1)): 1, ("sext", ("a", 2)): 1, (): 1}
        want2 = {("a", 1): 1, ("a", 2): 1, (): 1}
        w = Fail(f, {}); w.top = X.E - 1; rets = explore(w)
        yes = [x for x in rets if x[1] != 0]
        ok = yes and all(m.get("passed") for _, _, m, _ in yes)
        R.check("P09.hand", bool(ok), "src/threading.h", "an entry is handed over %s" % ("only after the fence" if ok else "without the fence having succeeded"), key="get_entry fence")
        fs = [i for i in f.calls() if short(i.dem) == "thread_state::fence"]
        ok = fs and all(linform(f, i.args[1]) in (want, want2) for i in fs)
        R.check("P09.hand", bool(ok), "src/threading.h", "the fence of entry i waits for %s" % ("counter base + i + 1" if ok else "another count"), key="get_entry count")
        R.check("P09.hand", not w.unb, "src/threading.h", "the index of a handed-over entry is %s" % ("inside the table" if not w.unb else "not checked against the table"), key="get_entry index")
        if not w.nout: raise Broken("get_entry gives out no entry")
        R.check("P09.hand", not w.early, "src/threading.h", "an entry pointer is given out %s" % ("only when the entry is complete" if not w.early else "although the fence failed"), key="get_entry out")
    gu = [f for f in B.funcs.values() if short(f.dem) == "gcd_unsigned"]
    if not gu: raise Broken("gcd_unsigned not found")
    for f in gu:
        w = Fail(f, {}); rets = explore(w)
        yes = [x for x in rets if x[1] != 0]
        ok = yes and all(m.get("adv") and m.get("asm") and not m.get("fail") for _, _, m, _ in yes)
        R.check("P09.hand", bool(ok), "src/threading.h", "a gcd succeeds %s" % ("only when it terminated and its results were announced" if ok else "although it failed or its end was not announced"), key="gcd ok")
        un = [x for x in rets if x[1] == 0 and x[2].get("fail") == "asm" and not x[2].get("raised")]
        R.check("P09.hand", not un, "src/threading.h", "a failed gcd %s" % ("is reported to the partner" if not un else "is not reported to the partner"), key="gcd raise")
        adv = [i for i in f.calls() if short(i.dem) == "thread_state::advance"]
        ok = adv and all(linform(f, i.args[1]) in ({("a", 0): 1, (): X.E},) for i in adv)
        R.check("P09.hand", bool(ok), "src/threading.h", "a finished gcd announces %s" % ("all its entries" if ok else "a count other than its entries"), key="gcd count")
        st = [i for i in f.all() if i.op == "store" and lf_key(linform(f, i.ops[0])) in (lf_key({("ld", "counter_start"): 1, ("sext", ("a", 0)): 1, (): 1}),)]
        R.check("P09.hand", bool(st), "src/threading.h", "the gcd starts publishing at %s" % ("its counter base + 1" if st else "another count"), key="gcd base")

class Fail(Pick):
    """which status operations failed on the way"""
    OPS = ("thread_state::fence", "thread_state::fence_absolute", "thread_state::advance", "thread_state::advance_absolute", "gcd_unsigned")
    def __init__(s, f, X):
        super().__init__(f); s.early = []; s.unb = []; s.nout = 0; s.top = None
    def answer(s, i, m, kn):
        if not i.is_call(): return None
        sh = short(i.dem)
        if sh in s.OPS or sh.endswith("::get_entry"):
            t = "adv" if "advance" in sh else "passed"
            return [(1, dict(m, **{t: 1})), (0, dict(m, fail=sh))]
        if sh == "thread_state::has_error": return [(0, m), (1, dict(m, fail="flag"))]
        if sh == "thread_state::raise_error": return [(None, dict(m, raised=1))]
        if "asm_" in sh and "gcd_unsigned" in sh: return [(0, dict(m, asm=1)), (1, dict(m, fail="asm")), (0xffffffff, dict(m, fail="asm"))]
        return None
    def step(s, i, mem, e):
        if i.op == "icmp" and s.top is not None and ("a", 2) in i.ops:
            a, b = i.ops; p = i.d["pred"]
            if b == ("a", 2): a, b = b, a; p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
            if b[0] == "c":
                c = int(b[1]); out = []
                for v in (0, 1):
                    hi = {("slt", 1): c - 1, ("sle", 1): c, ("sgt", 0): c, ("sge", 0): c - 1, ("ult", 1): c - 1, ("ule", 1): c, ("ugt", 0): c, ("uge", 0): c - 1, ("eq", 1): c, ("ne", 0): c}.get((p, v))
                    m2 = dict(mem); e2 = dict(e); e2[("v", i.i)] = v
                    if hi is not None and hi <= s.top: m2["idx"] = 1
                    out.append((m2, e2))
                return out
        if i.op == "store" and i.ops[1] == ("a", 3) and s.top is not None and s.picked(i.ops[0], mem) != ("n",):
            s.nout += 1
            if not mem.get("passed") or mem.get("fail"): s.early.append(i)
            if not mem.get("idx"): s.unb.append(i)
        return super().step(i, mem, e)

# ------------------------------------------------------------------ accesses
class Acc:
    __slots__ = ("leaf", "kind", "w", "K", "i", "f", "role", "ph", "hand", "delta")

SKIP = ("llvm.prefetch", "llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")

def leafof(M, cls, off, d=0):
    """(path, type, offset inside the leaf, size of the leaf) of a byte offset inside the shared state"""
    st = M.structs.get(cls)
    if not st: return None
    for m in st["members"]:
        if m["off"] <= off < m["off"] + max(1, m["size"]):
            t = m["type"].split("::")[-1]; sub = None
            for c in (m["type"], "square_state_type::" + t):
                if c in M.structs and not c.startswith(("mpz<", "std::")): sub = c
            if sub is None:
                q = [c for c in M.structs if c.startswith("gcd_results_type<") and M.structs[c]["size"] == m["size"]]
                if q and "[" not in m["type"] and "gcd" in m["type"]: sub = q[0]
            if sub and d < 4:
                r = leafof(M, sub, off - m["off"], d + 1)
                if r: return (m["name"] + "." + r[0],) + r[1:]
            return m["name"], m["type"], off - m["off"], m["size"]
    return None

def locate(f, v):
    """(leaf path, element kind) of an address inside the shared state (argument 0), or None"""
    off = 0; kind = None; var = False
    for _ in range(30):
        i = f.inst(v)
        if i is None: break
        if i.op == "getelementptr":
            if "off" in i.d: off += i.d["off"]
            else:
                off += i.d.get("coff", 0) or 0; var = True
                ix = [o for o in i.ops[1:] if o[0] != "c"]
                kind = idxkind(f, ix[-1]) if len(ix) == 1 and kind is None else ("?",)
            v = i.ops[0]; continue
        if i.op in ("phi", "select"): return "many", [locate(f, o) for o in (list(i.ops[1:]) if i.op == "select" else [x for x, _ in f.phi_inc(i)])]
        break
    if v != ("a", 0): return None
    r = leafof(f.mod, "square_state_type", off)
    if r is None: return None
    path, ty, o, size = r
    if var: return path, kind
    m = re.search(r"\[(\d+)\]", ty)
    if m: return path, ("k", o // (size // int(m.group(1))))
    return path, None

def idxkind(f, v):
    neg = False
    for _ in range(10):
        i = f.inst(v)
        if i is None: return ("?",)
        if i.op in ("sext", "zext", "trunc"): v = i.ops[0]; continue
        if i.op == "sub" and i.ops[0][0] == "c" and int(i.ops[0][1]) == 1: neg = not neg; v = i.ops[1]; continue
        if i.op == "xor" and i.ops[1][0] == "c" and int(i.ops[1][1]) == 1: neg = not neg; v = i.ops[0]; continue
        if i.op == "load":
            x = locate(f, i.ops[0])
            if x and x[0] != "many": return ("at", x[0], neg)
        return ("?",)
    return ("?",)

def apart(a, b):
    """two elements of one array that are certainly different"""
    if a and b:
        if a[0] == "at" and b[0] == "at" and a[1] == b[1] and a[2] != b[2]: return True
        if a[0] == "k" and b[0] == "k" and a[1] != b[1]: return True
    return False

def spread(x):
    if x is None: return []
    if x[0] == "many":
        r = []
        for y in x[1]: r += spread(y)
        return r
    return [x]

def accesses(f, i):
    """[(leaf path, kind, writes, hand-over delta)]"""
    out = []
    def add(v, w, delta=None):
        for p, k in spread(locate(f, v)): out.append((p, k, w, delta))
    if i.op == "load": add(i.ops[0], False)
    elif i.op == "store": add(i.ops[1], True)
    elif i.is_call():
        sh = short(i.dem)
        if any(i.dem.startswith(x) or (i.callee or "").startswith(x) for x in SKIP): return out
        if gmp.is_gmp(i.callee):
            rs = gmp.roles(i)
            if rs is None: rs = [(a, "b") for a in i.args]
            for a, r in rs:
                if r in "ob" or r in "ICpW": add(a, True)
                if r in "ibR": add(a, False)
        elif sh.startswith("mpz_impl_set_mul"):
            add(i.args[0], True); add(i.args[1], False); add(i.args[2], False)
        elif sh == "gcd_unsigned":
            x = [y for y in spread(locate(f, i.args[1]))]
            base = {p.rsplit(".", 1)[0] for p, _ in x}
            for b in base:
                for n in ("as", "bs", "end_index"): out.append((b + "." + n, None, True, None))
                out.append((b + ".uv_entries", None, True, i.args[0]))
            add(i.args[2], False)
        elif sh.endswith("::get_entry"):
            base = {p.rsplit(".", 1)[0] for p, _ in spread(locate(f, i.args[0]))}
            for b in base: out.append((b + ".uv_entries", None, False, i.args[1]))
        elif sh.startswith("thread_state::") or sh.startswith("c_thread_state"): pass
        elif (i.callee or "").startswith("llvm.mem"):
            add(i.args[0], True)
            if not (i.callee or "").startswith("llvm.memset"): add(i.args[1], False)
        else:
            for a in i.args:
                for p, k in spread(locate(f, a)): out.append((p, k, True, None))
    return out

class Hb(World):
    """K: how far the partner is known to be (-1 nothing in this iteration)"""
    def __init__(s, f, K0):
        super().__init__(f); s.K0 = K0; s.acc = {}; s.endK = None; s.late = []; s.nfail = set(); s.outs = {}
        for i in f.calls():
            if short(i.dem).endswith("::get_entry"):
                b = f.base_off(i.args[3])[0]; s.outs[b] = 1
    def start(s): return {"K": s.K0, "fail": None}
    def answer(s, i, m, kn):
        if not i.is_call():
            if i.op == "load" and m["fail"] and m["fail"][1] == "e" and s.f.base_off(i.ops[0])[0] in s.outs:
                s.late.append((i, "uses an entry it was not given"))
            return None
        sh = short(i.dem); k = m["K"]
        if sh in ("thread_state::fence", "thread_state::fence_absolute"):
            c = kn(i.args[1])
            if m["fail"]: s.late.append((i, "goes on to another fence"))
            return [(1, dict(m, K=max(k, c if c is not None and sh.endswith("fence") else -1))), (0, dict(m, fail=(i.i, "f")))]
        if sh.endswith("::get_entry"):
            c = kn(i.args[1])
            if m["fail"]: s.late.append((i, "goes on to another entry"))
            return [(1, dict(m, K=max(k, c + 1 if c is not None else -1))), (0, dict(m, fail=(i.i, "e")))]
        if sh == "gcd_unsigned":
            if m["fail"]: s.late.append((i, "goes on to the gcd"))
            return [(1, m), (0, dict(m, fail=(i.i, "g")))]
        return None
    def step(s, i, mem, e):
        if i.op in ("load", "store") or i.is_call():
            for p, k, w, d in accesses(s.f, i):
                key = (i.i, p, w)
                o = s.acc.get(key)
                if o is None or mem["K"] < o[1]: s.acc[key] = (k, mem["K"], i, d)
        if i.op == "ret":
            v = s.val(i.ops[0], e) if i.ops else None
            if mem["fail"]:
                s.nfail.add(mem["fail"][0])
                if v != 0: s.late.append((s.f.insts[mem["fail"][0]], "reports success"))
            elif v != 0: s.endK = mem["K"] if s.endK is None else min(s.endK, mem["K"])
        return super().step(i, mem, e)

def order(R, B, X, on):
    fs = {}
    for f in B.funcs.values():
        m = PHASE.match(short(f.dem))
        if m: fs[(int(m.group(1)), m.group(2))] = f
    if len(fs) != 10: raise Broken("%d phase functions found" % len(fs))
    asg = next((f for f in B.funcs.values() if short(f.dem) == "square_state_type::assign"), None)
    acc = []; conts = {}
    for role in ("master", "slave"):
        K = -1
        for k in range(6):
            if k == 5:
                if role not in on or asg is None: continue
                f = asg
            else: f = fs[(k, role)]
            w = Hb(f, K); w.run(0)
            for (ii, p, wr), (kd, kk, i, d) in w.acc.items():
                a = Acc(); a.leaf = p; a.kind = kd; a.w = wr; a.K = kk; a.i = i; a.f = f; a.role = role; a.ph = k; a.delta = d; a.hand = d is not None
                acc.append(a)
            if k < 5:
                sites = [i for i in f.calls() if short(i.dem) in ("thread_state::fence", "thread_state::fence_absolute", "gcd_unsigned") or short(i.dem).endswith("::get_entry")]
                bad = {j.i: (j, t) for j, t in w.late}
                badf = bool(w.late)
                for i in sites:
                    t = next((t for j, t in w.late if j.i == i.i), None)
                    if t is None and i.i in w.nfail: R.ok("P09.examined", "%s %s: a failed %s ends the phase" % (i.where(), short(f.dem), short(i.dem)))
                for j, t in w.late: R.bad("P09.examined", j.where(), "after a failed synchronisation %s %s" % (short(f.dem), t), key="%s %s %s" % (short(f.dem), short(j.dem) if j.is_call() else "entry", t))
                K = max(K, w.endK if w.endK is not None else -1)
    R.saw("accesses", len(acc))
    by = {}
    for a in acc: by.setdefault(a.leaf, []).append(a)
    npairs = 0
    for leaf, xs in sorted(by.items()):
        prob = {}
        n = 0
        for a in xs:
            for b in xs:
                if a.role != "master" or b.role != "slave" or not (a.w or b.w) or apart(a.kind, b.kind): continue
                n += 1
                S = X.S
                def done(k): return S[k + 1] if k < 5 else 1 << 40
                same = a.K >= done(b.ph) or b.K >= done(a.ph)
                if not same and a.hand and b.hand and a.ph == b.ph:
                    prod, cons = (a, b) if a.w else (b, a)
                    same = prod.delta == cons.delta and prod.delta[0] == "c"
                    if not same: prob.setdefault((cons.f.name, "hand"), (cons, prod, "take their entries from different counter bases"))
                    continue
                if not same: prob.setdefault((a.f.name, b.f.name), (a, b, "in the same iteration without a fence between them"))
                elif a.K < 0 or b.K < 0:
                    z = a if a.K < 0 else b
                    prob.setdefault((z.f.name, "x"), (z, b if z is a else a, "before it has waited for the partner's previous iteration"))
        npairs += n
        if not n: continue
        for (x, y), (a, b, t) in prob.items():
            R.bad("P09.order", a.i.where(), "%s %ss %s, which %s %ss, %s" % (short(a.f.dem), "write" if a.w else "read", leaf, short(b.f.dem), "write" if b.w else "read", t), key="%s %s %s %s" % (leaf, short(a.f.dem), short(b.f.dem), t))
        if not prob: R.ok("P09.order", "%s: %d pairs of accesses ordered" % (leaf, n))
    R.saw("pairs", npairs)
