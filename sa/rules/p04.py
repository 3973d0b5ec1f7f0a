"""P04: stopping always ends every prover thread - with the stop state established (every flag as the stop functions leave
it), no loop that waits or computes on a squaring, proving or event-loop thread goes round again, and no wait blocks."""
import re
from .. import ir
from ..ir import Broken, short
from ..world import World, params
from .s04 import Prog
from . import p05
from .p05 import SLEEP, CVWAIT, last, cls, isdtor, proverclass

JOIN = re.compile(r"std::(thread|jthread)::join\b")
GROUP = re.compile(r"\b(nudupl_form|nucomp_form|qfb_nudupl|qfb_nucomp|square_original|repeated_square_original|repeated_square_nudupl|repeated_square_fast|FastPowFormNucomp|bqf_|square_fast)")
def isflagref(t): return bool(re.search(r"(std::)?atomic<bool>(volatile|const|\s)*&", t)) or "atomic_flag&" in t
def atomicload(f, i): return p05.stopload(f, i)
def addr(f, i):
    return i.ops[0] if i.op == "load" else i.args[0] if i.is_call() and i.args else None

def run(R):
    R.rule("P04.state", "a stop function leaves every flag that a thread's waits and loops depend on in the stopping state before it joins a thread", floor=4)
    R.rule("P04.wait", "once the stop state is established no wait of a squaring, proving or event-loop thread blocks, and no loop that waits goes round again", floor=10)
    R.rule("P04.work", "once the stop state is established no loop that computes with forms on such a thread goes round again (loops of a constant or checkpoint-bounded number of rounds excepted)", floor=8)
    R.rule("P04.step", "every prover's interruption test answers 'stop' in the stop state, without blocking", floor=3)
    R.rule("P04.same", "a function that is handed a stop signal hands on that same signal", floor=5)
    R.rule("P04.sticky", "a stop flag is cleared only where its owner is set up", floor=2)
    R.rule("P04.sleep", "every sleep has a constant duration of at most a minute", floor=4)
    R.rule("P04.join", "a thread whose loops depend on an object's own stop state is joined only after that object was told to stop", floor=0)
    for tu in ("vdf_client", "hw_proof"):
        P = Prog(tu)
        R.saw("units", tu)
        unit(R, P)
    P = Prog("vdf_base"); R.saw("units", "vdf_base")
    unit(R, P, lib=True)
    R.assume_("once the stop state is established it is not revoked: the flags a stop function sets are cleared only where their owner is created (checked) or by the event loop that has ended")
    R.assume_("a computation with forms of bounded size ends (the arithmetic itself is not examined)")

USED = {}
# ------------------------------------------------------------------ the stop state
def key(P, f, v):
    """name of the flag a pointer leads to: a member, a global"""
    b, off = f.base_off(v)
    if b[0] == "g": return "::" + b[1]
    fs = {x for x in f.fields_of(v) if x.split("::")[-1] not in ("<base>", "_M_base", "_M_i")}
    for x in sorted(fs): return x
    # a member that refers to the flag
    i = f.inst(b)
    if i is not None and i.op == "load": return None if pointee(P, f, i.ops[0]) else "&"
    if i is not None and i.op == "getelementptr":
        return None
    if b[0] == "a" and isflagref(ptype(f, b[1])): return "&"
    return None

def pointee(P, f, v):
    """the pointer comes from a member declared as a pointer (an array of flags), not as a reference"""
    for x in f.fields_of(v):
        c, _, m = x.rpartition("::")
        for q in (P.M.structs.get(c) or {}).get("members", ()):
            if q["name"] == m and q["type"].rstrip().endswith("*"): return True
    return False

def ptype(f, k):
    ps = params(f.dem) or []
    off = len(f.params) - len(ps)
    return ps[k - off] if 0 <= k - off < len(ps) else ""

class StopState(World):
    """value of one flag at the joins (or the end) of a stop function, for a given value before"""
    def __init__(s, P, f, k, v0):
        World.__init__(s, f); s.P = P; s.k = k; s.v0 = v0; s.out = set(); s.joined = False
    def start(s): return {"v": s.v0}
    def answer(s, i, mem, kn):
        f = s.f
        if i.op == "load":
            if i.ty in ("i8", "i1") and key(s.P, f, i.ops[0]) == s.k and mem["v"] is not None: return [(mem["v"], mem)]
            return None
        if atomicload(f, i):
            if key(s.P, f, i.args[0]) == s.k and mem["v"] is not None: return [(mem["v"], mem)]
            return None
        if i.callee and len(i.args) >= 2 and re.search(r"std::(atomic|__atomic_base)<?", i.dem) and re.search(r"::(operator=|store|exchange)\b|operator=", i.dem) and key(s.P, f, i.args[0]) == s.k:
            v = kn(i.args[1]); return [(None, dict(mem, v=None if v is None else v & 1))]
        if i.callee and re.search(r"atomic_flag::(test_and_set|clear)", i.dem) and key(s.P, f, i.args[0]) == s.k: return [(None, dict(mem, v=int("test_and_set" in i.dem)))]
        return None
    def step(s, i, mem, e):
        if i.op == "store" and s.width8(i) and key(s.P, s.f, i.ops[1]) == s.k:
            v = s.val(i.ops[0], e); mem = dict(mem, v=None if v is None else v & 1)
        return World.step(s, i, mem, e)
    def width8(s, i): return i.d.get("size") in (1, None)
    def at(s, i, mem):
        if i.is_call() and i.callee and JOIN.search(i.dem) or i.is_call() and mayjoin(s.P, s.f, i): s.joined = True; s.out.add(mem["v"])
        elif i.op == "ret" and not s.joins: s.out.add(mem["v"])
    def run(s):
        s.joins = any(i.callee and JOIN.search(i.dem) or mayjoin(s.P, s.f, i) for i in s.f.calls())
        return World.run(s)

def mayjoin(P, f, i):
    if not hasattr(P, "_mj"):
        P._mj = P.O.may(lambda g, j: j.is_call() and bool(j.callee) and bool(JOIN.search(j.dem)))
    return i.is_call() and bool(P.O.targets(f, i) & P._mj)

def stops(P):
    """the functions that tell threads to stop: stop methods and destructors of classes that hold threads or flags, and functions that set a flag named in a struct and wait"""
    r = set()
    for n, f in P.M.funcs.items():
        nm = last(f.dem)
        if "lambda" in f.dem or "$_" in f.dem or short(f.dem).startswith("std::"): continue
        if nm in ("stop", "Stop", "shutdown", "Shutdown") or re.match(r"hw_stop\w*$", nm): r.add(n)
        elif isdtor(f.dem) and cls(f) in P.holds: r.add(n)
    return r

def stored(P, f):
    """flags the function stores to"""
    r = set()
    for i in f.all():
        a = None
        if i.op == "store" and i.d.get("size") in (1, None): a = i.ops[1]
        elif i.is_call() and i.callee and len(i.args) >= 2 and re.search(r"std::(atomic|__atomic_base)<?", i.dem) and re.search(r"::(operator=|store|exchange)\b|operator=", i.dem): a = i.args[0]
        elif i.is_call() and i.callee and re.search(r"atomic_flag::(test_and_set|clear)", i.dem): a = i.args[0]
        if a is not None:
            k = key(P, f, a)
            if k and k != "&": r.add(k)
    return r

def stopstate(R, P):
    ss = stops(P)
    if not ss: raise Broken("no stop function in " + P.tu)
    helpers = {n for n, f in P.M.funcs.items() if n not in ss and stored(P, f) and not mayjoin_fn(P, n) and not short(f.dem).startswith("std::")}
    via = P.O.may(lambda f, i: i.is_call() and i.callee in helpers)
    helpers |= {n for n in via if n in P.M.funcs and n not in ss and not mayjoin_fn(P, n) and not short(P.M.funcs[n].dem).startswith(("std::", "boost::"))}
    V = ir.view_if(P.tu, lambda file, m, d: m in ss, lambda file, m, d: m not in helpers, passes="always-inline,function(sroa<modify-cfg>)")
    st = {}; where = {}
    for n in sorted(ss):
        f = V.funcs.get(n)
        if f is None: continue
        for k in sorted(stored(P, f)):
            outs = set()
            for v0 in (0, 1):
                X = StopState(P, f, k, v0); X.run(); outs |= X.out
            if len(outs) == 1 and None not in outs:
                v = outs.pop()
                if k in st and st[k] != v: st[k] = None
                else: st[k] = v
                where[k] = "%s leaves %s %s" % (f.short, k, "set" if v else "clear")
    return {k: v for k, v in st.items() if v is not None}, where

def mayjoin_fn(P, n):
    if not hasattr(P, "_mj"): P._mj = P.O.may(lambda g, j: j.is_call() and bool(j.callee) and bool(JOIN.search(j.dem)))
    return n in P._mj

# ------------------------------------------------------------------ the world after stop
class After(World):
    ints = True
    def __init__(s, P, f, st, used):
        World.__init__(s, f); s.P = P; s.stp = st; s.used = used
    def flag(s, v):
        """value of a flag in the stop state"""
        k = key(s.P, s.f, v)
        if k is None: return None
        if k == "&":
            s.used.add("handed over"); return 1
        if k in s.stp: s.used.add(k); return s.stp[k]
        return None
    def answer(s, i, mem, kn):
        f = s.f
        if i.op == "load":
            if i.ty in ("i8", "i1"):
                k = key(s.P, f, i.ops[0])
                if k == "&" and not i.d.get("atomic"): return None
                v = s.flag(i.ops[0])
                if v is not None: return [(v, mem)]
            return None
        if atomicload(f, i):
            v = s.flag(i.args[0])
            return [(v, mem)] if v is not None else None
        ns = {last(i.dem)} if i.callee else p05.vnames(s.P, f, i)
        if ns & {"IsFinished", "PerformExtraStep"}:
            o = ns & {"IsFinished"}
            t = s.P.O.targets(f, i) or ({i.callee} if i.callee else set())
            if any(proverclass(s.P, cls(s.P.M.funcs[x])) for x in t if x in s.P.M.funcs) or not i.callee: return [(0, mem)]
        return None

class Round(After):
    """from a loop's head: may the loop go round once more after waiting or computing?"""
    def __init__(s, P, f, st, used, head, body, what):
        After.__init__(s, P, f, st, used); s.head = head; s.body = body; s.what = what; s.site = None
    def start(s): return {"w": 0}
    def at(s, i, mem): pass
    def step(s, i, mem, e):
        if i.i in s.what: mem = dict(mem, w=i.i + 1)
        return After.step(s, i, mem, e)
    def edge(s, b, z, mem, env):
        if z not in s.body: return None
        if z == s.head:
            if mem["w"]: s.found.append(s.f.insts[mem["w"] - 1])
            return None
        return mem
    def val(s, v, e):
        x = After.val(s, v, e)
        if x is None:
            i = s.f.inst(v)
            if i is not None and i.op == "icmp" and i.d["pred"] in ("ult", "ugt", "ne", "eq"):
                a, b = i.ops
                if i.d["pred"] in ("ult", "ne", "eq") and World.val(s, a, e) == 0 and positive(s.f, b): return 0 if i.d["pred"] == "eq" else 1
                if i.d["pred"] in ("ugt", "ne", "eq") and World.val(s, b, e) == 0 and positive(s.f, a): return 0 if i.d["pred"] == "eq" else 1
        return x
    def run(s): return World.run(s, s.head)

def positive(f, v, d=0):
    """1 << n is not zero (a shift by the width or more has no defined value)"""
    i = f.inst(v)
    if i is None or d > 4: return v[0] == "c" and v[1] not in ("0",)
    if i.op in ("zext", "sext", "freeze"): return positive(f, i.ops[0], d + 1)
    return i.op == "shl" and i.ops[0][0] == "c" and i.ops[0][1] == "1"

class Waits(After):
    """straight-line reach of blocking waits (used for the interruption tests)"""
    def at(s, i, mem): pass
    def step(s, i, mem, e):
        if i.op == "ret" and i.ops:
            if s.val(i.ops[0], e) != 0: s.found.append(i)
        return After.step(s, i, mem, e)

class Pred(After):
    def step(s, i, mem, e):
        if i.op == "ret" and i.ops:
            v = s.val(i.ops[0], e)
            if v is None or v & 1 == 0: s.found.append(i)
        return After.step(s, i, mem, e)

def predview(P, g):
    """a predicate with the helpers that answer for it inlined"""
    fs = P.M.funcs
    def helpers(n, s):
        for i in fs[n].calls():
            c = i.callee
            if c in fs and c not in s and fs[c].ret == "i1" and fs[c].blocks and not short(fs[c].dem).startswith(("std::", "boost::", "__gnu")): s.add(c); helpers(c, s)
        return s
    h = helpers(g.name, set())
    if not h: return g
    V = ir.view_if(P.tu, lambda file, m, d: m == g.name, lambda file, m, d: m not in h, passes="always-inline,function(sroa<modify-cfg>)")
    return V.funcs.get(g.name, g)

def preds(P, i):
    r = [P.M.funcs[t] for t in P.L.through_lib(i.callee) if short(P.M.funcs[t].dem).endswith("operator()") or "lambda" in P.M.funcs[t].dem or "$_" in P.M.funcs[t].dem]
    return r + [P.M.funcs[a[1]] for a in i.args if a[0] == "F" and a[1] in P.M.funcs]

def iswait(f, i): return i.is_call() and bool(i.callee) and bool(SLEEP.search(i.dem) or CVWAIT.search(i.dem) or re.search(r"std::this_thread::yield", i.dem)) and not short(i.dem).startswith("std::condition_variable_any::wait<") or False

def unit(R, P, lib=False):
    M = P.M; O = P.O
    p05.slots(P)
    st, where = ({}, {}) if lib else stopstate(R, P)
    for k in sorted(where): R.saw("stop state", where[k])
    for k, v in sorted(st.items()): R.ok("P04.state", "%s: %s" % (P.tu, where[k]))
    repo = lambda n: not short(M.funcs[n].dem).startswith(("std::", "boost::", "__gnu", "operator", "void std::", "bool std::"))
    bodies = set(P.L.entries)
    onthread = {n for n in P.C.reach(bodies) if n in M.funcs and repo(n)}
    onthread |= {n for n, f in M.funcs.items() if proverclass(P, cls(f)) and repo(n)}
    waiting = O.may(lambda f, i: iswait(f, i))
    # helpers whose answer carries a flag, or that wait for the caller's loop
    ans = {n for n in onthread if M.funcs[n].ret != "void" and not proverclass(P, cls(M.funcs[n])) and any(atomicload(M.funcs[n], i) or i.is_call() and "IsFinished" in ({last(i.dem)} if i.callee else p05.vnames(P, M.funcs[n], i)) for i in M.funcs[n].all()) and not returns_obj(M.funcs[n])}
    getf = O.may(lambda f, i: i.is_call() and (last(i.dem) == "GetForm" if i.callee else "GetForm" in p05.vnames(P, f, i)))
    gen = {n for n, f in M.funcs.items() if proverclass(P, cls(f)) and n in getf and last(f.dem) not in ("GetForm", "start", "stop") and not isdtor(f.dem) and repo(n) and "lambda" not in f.dem}
    ans |= {n for n in p05.stepinl(P) if M.funcs[n].ret != "void" and not returns_obj(M.funcs[n])} & set(M.funcs)
    stepans = {n for n, f in M.funcs.items() if f.ret in ("i1", "i8") and n not in gen and last(f.dem) not in ("PerformExtraStep", "IsFinished") and proverclass(P, cls(f)) and any(i.is_call() and "PerformExtraStep" in ({last(i.dem)} if i.callee else p05.vnames(P, f, i)) for i in f.calls())}
    gen -= stepans; ans |= stepans
    roots = set()
    group = O.may(lambda f, i: i.is_call() and bool(i.callee) and bool(GROUP.search(short(i.dem))))
    for n in onthread:
        f = M.funcs[n]
        if n in ans and not f.loops(): continue
        if f.loops() and (n in waiting or n in group or n in gen) or any(CVWAIT.search(i.dem) for i in f.calls() if i.callee) or any(SLEEP.search(i.dem) for i in f.calls() if i.callee): roots.add(n)
    # a loop may also poll without sleeping
    for n in onthread:
        f = M.funcs[n]
        if f.loops() and any(atomicload(f, i) for i in f.all()): roots.add(n)
    if lib: roots &= gen
    if not roots: raise Broken("no waiting or computing thread function in " + P.tu)
    access = {n for n in roots if n in gen or any(isflagref(t) for t in params(M.funcs[n].dem) or ()) or any(atomicload(M.funcs[n], i) and (key(P, M.funcs[n], addr(M.funcs[n], i)) in st or key(P, M.funcs[n], addr(M.funcs[n], i)) == "&") for i in M.funcs[n].all()) or n in bodies or direct_bodies(P, n, bodies)}
    # a helper whose answer carries the signal is analysed inside its callers; one that waits also by itself
    roots -= stepans
    alone = {n for n in roots & ans if n in waiting}
    uncalled = {n for n in roots & ans if not P.O.callers().get(n)}
    top = (roots - ans) | uncalled
    VS = []
    for rs in (top, alone - uncalled):
        if not rs: continue
        V = ir.view_if(P.tu, lambda file, m, d: m in rs, lambda file, m, d: m not in ans or m in rs, passes="always-inline,function(sroa<modify-cfg>)")
        VS.append((V, rs))
        for n in sorted(rs):
            f = V.funcs.get(n)
            if f is None: raise Broken("no view of " + n)
            judge(R, P, f, n, st, n in access, waiting, group)
    if lib: return
    steps(R, P, st, ans)
    handed(R, P)
    sticky(R, P, st, onthread)
    for V, rs in VS: sleeps(R, P, V, rs)
    if P.tu == "vdf_client": joins(R, P, st, USED)

def direct_bodies(P, n, bodies):
    return any(g.name in bodies for g, i in P.O.callers().get(n, []))

def returns_obj(f): return any(p.get("sret") for p in f.params)

def judge(R, P, f, n, st, access, waiting, group):
    M = P.M
    waits = {i.i for i in f.calls() if iswait(f, i) or i.callee in waiting and callwaits(P, i)}
    for i in f.calls():
        if not (i.callee and CVWAIT.search(i.dem)) or i.callee in M.funcs and short(M.funcs[i.callee].dem) != short(i.dem): continue
        pr = preds(P, i)
        if not pr: continue
        for g in pr:
            X = Pred(P, predview(P, g), st, USED.setdefault(n, set())); X.run()
            R.check("P04.wait", not X.found, i.where(), "%s waits for a condition that stopping does not make true" % f.short, inst="%s %s: the wait at %s ends on stop" % (P.tu, f.short, i.where()), key="%s %s wait" % (P.tu, f.short))
    for h, body in sorted(f.loops().items()):
        ins = [i for b in body for i in f.blocks[b].insts]
        w = {i.i for i in ins if i.i in waits}
        spin = not w and polls(P, f, ins, st)
        if w or spin:
            what = w or {i.i for i in ins if i.is_call() or i.op == "load"}
            X = Round(P, f, st, USED.setdefault(n, set()), h, body, what); X.run()
            t = X.found[0] if X.found else f.blocks[h].term
            R.check("P04.wait", not X.found, t.where(), "%s keeps waiting in a loop after stop (round through %s)" % (f.short, t.where()), inst="%s %s: the waiting loop at %s ends on stop" % (P.tu, f.short, f.blocks[h].term.where()), key="%s %s waiting loop" % (P.tu, f.short))
            continue
        mine = [i for i in ins if not any(i.bb in b2 and b2 < body for b2 in f.loops().values()) and flagread(P, f, i, st)]
        if mine and not counted(f, h, body):
            X = Round(P, f, st, USED.setdefault(n, set()), h, body, {i.i for i in ins}); X.run()
            R.check("P04.wait", not X.found, f.blocks[h].term.where(), "%s keeps going round a loop that tests the stop signal" % f.short, inst="%s %s: the loop at %s ends on stop" % (P.tu, f.short, mine[0].where()), key="%s %s loop" % (P.tu, f.short))
        if not access: continue
        g = {i.i for i in ins if i.is_call() and (i.callee and GROUP.search(short(i.dem)) or P.O.targets(f, i) & group)}
        if not g: continue
        why = bounded(f, h, body)
        if why:
            R.saw("bounded computing loops", "%s: %s" % (f.short, why)); continue
        X = Round(P, f, st, USED.setdefault(n, set()), h, body, g); X.run()
        t = X.found[0] if X.found else f.blocks[h].term
        R.check("P04.work", not X.found, t.where(), "%s keeps computing in a loop after stop (round through %s)" % (f.short, t.where()), inst="%s %s: the computing loop at %s ends on stop" % (P.tu, f.short, f.blocks[h].term.where()), key="%s %s computing loop" % (P.tu, f.short))

def flagread(P, f, i, st):
    if not (atomicload(f, i) or i.op == "load" and i.ty in ("i8", "i1")): return False
    a = addr(f, i)
    if a is None: return False
    k = key(P, f, a)
    return k == "&" and atomicload(f, i) or k in st

def counted(f, h, body):
    """a for loop: a counter that grows by one against a bound that does not change"""
    for b in body:
        t = f.blocks[b].term
        if t.op != "br" or len(t.d["succ"]) != 2 or all(z in body for z in t.d["succ"]): continue
        c = f.inst(t.ops[0])
        if c is None or c.op != "icmp": continue
        for v in c.ops:
            p = f.inst(strip(f, v))
            if p is not None and p.op == "phi" and p.bb == h and all((j := f.inst(strip(f, x))) is not None and j.op == "add" and j.ops[1][0] == "c" for x, pb in f.phi_inc(p) if pb in body): return True
    return False

def callwaits(P, i):
    """a call of a function that only waits (its own loops are judged there)"""
    f = P.M.funcs.get(i.callee)
    return f is not None and not f.loops() and any(iswait(f, j) for j in f.calls() if j.callee)

def polls(P, f, ins, st):
    """a loop that spins on a flag: it reads one and does nothing else"""
    fl = [i for i in ins if atomicload(f, i) or i.is_call() and "IsFinished" in ({last(i.dem)} if i.callee else p05.vnames(P, f, i))]
    if not fl: return False
    own = set(i.i for i in ins)
    for i in ins:
        if i.op == "store": return False
        if i.op == "phi" and i.ty != "i1": return False
        if i.is_call() and i not in fl and not re.search(r"operator|::get\b|::load\b|lock|unlock", i.dem or ""): return False
    return True

def bounded(f, h, body):
    """a constant number of rounds, or fewer than a spacing: init = (x / s) * s, running to x"""
    for b in body:
        t = f.blocks[b].term
        if t.op != "br" or len(t.d["succ"]) != 2 or all(z in body for z in t.d["succ"]): continue
        c = f.inst(t.ops[0])
        if c is None or c.op != "icmp": continue
        for v, lim in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
            p = f.inst(strip(f, v))
            if p is not None and p.op in ("add", "sub"): p = next((q for q in (f.inst(strip(f, p.ops[0])), f.inst(strip(f, p.ops[1]))) if q is not None and q.op == "phi"), p)
            if p is None or p.op != "phi" or p.bb != h: continue
            ini = [x for x, pb in f.phi_inc(p) if pb not in body]
            stp = [f.inst(strip(f, x)) for x, pb in f.phi_inc(p) if pb in body]
            if len(ini) != 1 or any(s is None or s.op not in ("add", "sub") or s.ops[1][0] != "c" for s in stp): continue
            a, ak = split(f, ini[0]); l, lk = split(f, lim)
            if a == l and abs(lk - ak) <= 1 << 16: return "at most %d rounds" % abs(lk - ak)
            m = f.inst(strip(f, ini[0]))
            if m is not None and m.op == "mul":
                for q, s in ((m.ops[0], m.ops[1]), (m.ops[1], m.ops[0])):
                    d = f.inst(strip(f, q))
                    if d is not None and d.op == "udiv" and same(f, d.ops[0], lim) and same(f, d.ops[1], s): return "at most one spacing"
    return None

def strip(f, v):
    while True:
        i = f.inst(v)
        if i is not None and i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]
        else: return v
def split(f, v):
    v = strip(f, v); i = f.inst(v)
    if v[0] == "c": return None, int(v[1])
    if i is not None and i.op in ("add", "sub") and i.ops[1][0] == "c":
        b, k = split(f, i.ops[0]); return b, k + (1 if i.op == "add" else -1) * int(i.ops[1][1])
    return v, 0
def same(f, a, b, d=0):
    a, b = strip(f, a), strip(f, b)
    if a == b: return True
    i, j = f.inst(a), f.inst(b)
    if i is None or j is None or d > 5 or i.op != j.op: return False
    if i.op == "load": return f.base_off(i.ops[0]) == f.base_off(j.ops[0]) or same(f, i.ops[0], j.ops[0], d + 1)
    if i.op == "getelementptr": return i.d.get("off") is not None and i.d.get("off") == j.d.get("off") and same(f, i.ops[0], j.ops[0], d + 1)
    return False

def steps(R, P, st, ans):
    M = P.M
    ov = {n for n, f in M.funcs.items() if last(f.dem) == "PerformExtraStep" and proverclass(P, cls(f)) and "lambda" not in f.dem and "$_" not in f.dem and "operator()" not in f.dem}
    if not ov: raise Broken("no interruption test in " + P.tu)
    V = ir.view_if(P.tu, lambda file, m, d: m in ov, lambda file, m, d: m not in ans and m not in p05.stepinl(P), passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(ov):
        f = V.funcs.get(n)
        if f is None: continue
        X = Waits(P, f, st, set()); X.run()
        R.check("P04.step", not X.found, (X.found[0] if X.found else f.blocks[0].insts[0]).where(), "%s answers 'go on' in the stop state" % f.short, inst="%s %s answers stop" % (P.tu, f.short), key="%s %s" % (P.tu, f.short))

# ------------------------------------------------------------------ handing the signal on
def origin(f, v, depth=0):
    """where a stop signal handed on comes from"""
    b = f.base_off(v)[0]; i = f.inst(b)
    if i is not None and i.op == "load" and depth < 4:
        c = f.base_off(i.ops[0])[0]; j = f.inst(c)
        if j is not None and j.op == "alloca":
            for s in f.all():
                if s.op == "store" and f.base_off(s.ops[1])[0] == c and s.ops[0][0] in ("a", "v"): return origin(f, s.ops[0], depth + 1)
        return ("member", "")
    if b[0] == "a": return ("param", b[1]) if isflagref(ptype(f, b[1])) else ("member", "")
    if b[0] == "g": return ("global", b[1])
    if i is not None and i.op == "alloca": return ("local", i.i)
    return ("?", "")

def handed(R, P):
    for n, f in sorted(P.M.funcs.items()):
        if short(f.dem).startswith(("std::", "void std::", "decltype", "__gnu")) or "std::thread::_" in f.dem or "std::_" in f.dem.split("(")[0]: continue
        mine = [k for k in range(len(f.params)) if isflagref(ptype(f, k))]
        starts = any(P.L.is_thread_start(i) for i in f.calls())
        for i in f.calls():
            g = P.M.funcs.get(i.callee)
            if g is None or short(g.dem).startswith("std::") or "std::" in g.dem.split("(")[0]: continue
            ps = params(g.dem) or []; off = len(i.args) - len(ps)
            for k, t in enumerate(ps):
                if not isflagref(t) or not 0 <= k + off < len(i.args): continue
                w, x = origin(f, i.args[k + off])
                if w == "?": continue
                if mine: ok = w == "param"; why = "its own signal"
                elif w == "local": ok = starts; why = "the signal of the threads it starts"
                elif w == "global": ok = True; why = "a global signal"
                else: ok = True; why = "its object's signal"
                R.check("P04.same", ok, i.where(), "%s hands a stop signal other than its own to %s" % (f.short, short(g.dem)), inst="%s %s hands %s %s" % (P.tu, f.short, last(g.dem), why), key="%s -> %s" % (f.short, last(g.dem)))
        # a constructor keeps the signal it is given
        if mine and last(f.dem) == cls(f).split("::")[-1] and proverclass(P, cls(f)):
            for k in mine:
                ok = any(s.op == "store" and s.ops[0][0] in ("a", "v") and f.base_off(s.ops[1])[0] not in [("v", j.i) for j in f.all() if j.op == "alloca"] and origin(f, s.ops[0]) == ("param", k) for s in f.all())
                ok = ok or any(c.callee in P.M.funcs and any(origin(f, a) == ("param", k) for a in c.args) for c in f.calls())
                R.check("P04.same", ok, f.blocks[0].insts[0].where(), "%s does not keep the stop signal it is given" % f.short, inst="%s %s keeps its signal" % (P.tu, f.short), key="%s keeps" % f.short)

def sticky(R, P, st, onthread):
    """a stop flag once set stays set"""
    for n, f in sorted(P.M.funcs.items()):
        if short(f.dem).startswith("std::"): continue
        touched = {x for i in f.all() if i.op == "store" for x in f.fields_of(i.ops[1])} | {x for i in f.calls() if i.args and "operator=" in i.dem for x in f.fields_of(i.args[0])}
        for i in f.all():
            v = None
            if i.op == "store" and i.d.get("size") in (1, None): v, a = i.ops[0], i.ops[1]
            elif i.is_call() and i.callee and len(i.args) >= 2 and re.search(r"std::(atomic|__atomic_base)<?", i.dem) and re.search(r"::(operator=|store|exchange)\b|operator=", i.dem): v, a = i.args[1], i.args[0]
            if v is None or v[0] == "c" and int(v[1]) & 1: continue
            k = key(P, f, a)
            if k == "&": ok = not (f.base_off(a)[0][0] == "a" and isflagref(ptype(f, f.base_off(a)[0][1]))) and not i.is_call(); c = ""
            elif k in st and st[k] == 1 and not k.startswith("::"):
                c = "::".join(k.split("::")[:-1])
                if not i.is_call() and f.inst(v) is not None: pass
                ok = last(f.dem) == c.split("::")[-1] or n not in onthread and len({x for x in touched if x.startswith(c + "::")}) >= 5
            else: continue
            if k == "&" and ok: continue
            R.check("P04.sticky", ok, i.where(), "%s clears the stop flag %s" % (f.short, k if k != "&" else "it was handed"), inst="%s %s initialises %s" % (P.tu, f.short, k), key="%s clears %s" % (f.short, k))

def sleeps(R, P, V, roots):
    UNIT = {"l, std::ratio<1l, 1l>": 1, "l, std::ratio<1l, 1000l>": 1000, "l, std::ratio<1l, 1000000l>": 10**6, "l, std::ratio<1l, 1000000000l>": 10**9, "l, std::ratio<60l, 1l>": 1 / 60}
    seen = set()
    for n in sorted(roots):
        f = V.funcs.get(n)
        for i in f.calls():
            if not i.callee or not SLEEP.search(i.dem) or SLEEP.search(short(f.dem)): continue
            m = re.search(r"std::chrono::duration<(?:long|l), std::ratio<(\d+)l?, (\d+)l?>", i.dem)
            v = const_arg(f, i.args[0])
            if m is None and "usleep" not in i.dem: secs = v
            else: secs = None if v is None else v * int(m.group(1)) / int(m.group(2)) if m else v / 1e6
            if (f.short, i.where()) in seen: continue
            seen.add((f.short, i.where()))
            R.check("P04.sleep", secs is not None and 0 <= secs <= 60, i.where(), "%s sleeps for %s" % (f.short, "a time that is not constant" if secs is None else "%g s" % secs), inst="%s %s sleeps %s s" % (P.tu, f.short, secs), key="%s sleeps" % f.short)

def const_arg(f, v, d=0):
    if v[0] == "c": return int(v[1])
    i = f.inst(v)
    if i is None or d > 6: return None
    if i.op in ("zext", "sext", "trunc"): return const_arg(f, i.ops[0], d + 1)
    b = f.base_off(v)[0]; j = f.inst(b)
    if v[0] == "v" and j is not None and j.op == "alloca":
        r = set()
        for s in f.all():
            if s.op == "store" and f.base_off(s.ops[1])[0] == b: r.add(const_arg(f, s.ops[0], d + 1))
            elif s.is_call() and s.args and f.base_off(s.args[0])[0] == b and s.callee and re.search(r"duration<|operator", s.dem) and len(s.args) >= 2 and not SLEEP.search(s.dem): r.add(const_arg(f, s.args[1], d + 1))
        return r.pop() if len(r) == 1 else None
    if i.is_call() and i.callee and i.args is not None:
        m = re.search(r'operator""\s*\w+<((?:\(char\)\d+(?:, )?)+)>', i.dem)
        if m: return int("".join(chr(int(x)) for x in re.findall(r"\(char\)(\d+)", m.group(1))))
    return None

# ------------------------------------------------------------------ telling objects before joining their users
def joins(R, P, st, used):
    M = P.M; O = P.O; sf = stops(P)
    groups = {}
    for n, f in M.funcs.items():
        if any(P.L.is_thread_start(i) for i in f.calls()) and not "std::" in f.dem.split("(")[0]:
            groups[n] = f
    for n, f in sorted(groups.items()):
        c = cls(f)
        if c in P.holds: continue                     # a class joins its own threads (P04.state, S04)
        bodies = {}
        for i in f.calls():
            if not P.L.is_thread_start(i): continue
            o = f.inst(f.base_off(i.args[0])[0])
            kind = "?"
            if re.search(r"std::vector<std::thread", i.dem): kind = "vec"
            elif o is not None and o.op == "alloca":
                kind = "vec" if any(j.is_call() and j.callee and re.search(r"std::vector<std::thread.*::(push_back|emplace_back)", j.dem) and any(f.base_off(a)[0] == ("v", o.i) for a in j.args[1:]) for j in f.calls()) else "one"
            bodies.setdefault(kind, set()).update(P.L.thread_bodies(f, i))
        fam = [g for g in M.funcs.values() if g.name == n or lambda_of(g, f)]
        for g in fam:
            for j in g.calls():
                if not j.callee or not JOIN.search(j.dem): continue
                a = g.inst(g.base_off(j.args[0])[0])
                kind = "vec" if a is not None and a.is_call() and re.search(r"std::vector<std::thread|__normal_iterator<std::thread", a.dem) else "one"
                bs = bodies.get(kind, set()) | bodies.get("?", set())
                need = set()
                for b in bs:
                    for x in P.C.reach({b}):
                        need |= {k.split("::")[0] if k.count("::") == 1 else "::".join(k.split("::")[:-1]) for k in used.get(x, ()) if not k.startswith("::") and k != "handed over" and not proverclass(P, "::".join(k.split("::")[:-1]))}
                for c2 in sorted(need):
                    tell = lambda h, i, c2=c2: i.is_call() and any(t in sf and cls(M.funcs[t]) == c2 for t in O.targets(h, i) | ({i.callee} if i.callee else set()))
                    ok = O.before_up(g, j, tell)
                    R.check("P04.join", ok, j.where(), "%s joins a thread that waits on %s before %s was told to stop" % (f.short, c2, c2), inst="%s: %s stopped before the join at %s" % (f.short, c2, j.where()), key="%s joins before %s" % (f.short, c2))

def lambda_of(g, f):
    return ("lambda" in g.dem or "$_" in g.dem) and (f.dem.split(")")[0] in g.dem or short(f.dem) + "(" in g.dem)
