"""P05: a proof is returned only when it is complete - every path on which a prover did not finish, a wait was left through
the stop signal or a request was aborted ends without a filled result."""
import re
from .. import ir
from ..ir import Broken, short
from ..world import World
from .s04 import Prog

API = re.compile(r"\bProver::(IsFinished|GetProof)\(")
SLEEP = re.compile(r"std::this_thread::sleep_|::usleep|^usleep|nanosleep|vdf_usleep")
CVWAIT = re.compile(r"std::condition_variable(_any)?::wait(_for|_until)?\b")
def stopload(f, i):
    """a test of an atomic flag"""
    if i.op == "load": return bool(i.d.get("atomic")) and i.ty in ("i8", "i1")
    return i.is_call() and bool(i.callee) and bool(i.args) and bool(re.match(r"std::(atomic<bool>::|__atomic_base<bool>::|atomic_flag::test\b)", re.sub(r"^\w+ ", "", i.dem))) and bool(re.search(r"::(load|operator bool|test)\b", i.dem))
def last(d): return short(d).split("::")[-1]
def cls(f): return "::".join(short(f.dem).split("::")[:-1])
def isdtor(d): return "::~" in d.split("(")[0]

def run(R):
    R.rule("P05.abort", "in a function that returns a proof, no path on which the prover run did not finish, a nested proof was aborted or a wait ended because of the stop signal returns a filled proof", floor=8)
    R.rule("P05.extra", "after an interruption request a prover neither reports completion nor answers the interruption test with 'go on'", floor=8)
    R.rule("P05.flag", "a prover's completion flag is raised only by the completion report, or by a stop that nobody who reads results runs alongside", floor=4)
    R.rule("P05.loop", "the event loop publishes a segment only when its own prover reported completion", floor=2)
    R.rule("P05.cover", "a result assembled from finished segments uses only stored, non-empty segments, and is returned only when they cover the requested iterations", floor=4)
    R.rule("P05.slow", "slow proving whose cancellation probe reports the file gone returns an empty result", floor=1)
    R.rule("P05.hw", "the hardware proof service marks a segment done only after its prover finished, and hands out a proof only when every segment it builds on is done", floor=3)
    P = Prog("vdf_client")
    R.saw("units", "vdf_client")
    abort(R, P)
    slots(P)
    flags(R, P)
    B = Prog("vdf_base")
    R.saw("units", "vdf_base")
    flags(R, B)
    slow(R, "fastvdf")
    R.saw("units", "fastvdf")
    Q = Prog("hw_proof")
    R.saw("units", "hw_proof")
    flags(R, Q)
    hw(R, Q)
    R.assume_("a stop signal once set stays set")
    R.assume_("a prover object whose completion flag is set holds the complete proof (the arithmetic is not examined)")

# ---------------------------------------------------------------- provers
def provers(P):
    """functions that run a prover to its end or start a thread that does"""
    gen = lambda f, i: i.is_call() and bool(i.callee) and last(i.dem) == "GenerateProof" or i.is_call() and any(last(P.M.funcs[t].dem) == "GenerateProof" for t in P.O.targets(f, i) if t in P.M.funcs)
    start = lambda f, i: P.L.is_thread_start(i) and any(last(P.M.funcs[b].dem) == "GenerateProof" or b in P.O.may(gen) for b in P.L.thread_bodies(f, i) if b in P.M.funcs)
    sync = {n for n, f in P.M.funcs.items() if last(f.dem) == "GenerateProof"}
    for n, f in P.M.funcs.items():
        if any(gen(f, i) and not P.L.is_thread_start(i) for i in f.calls()) and not ("lambda" in f.dem or "operator()" in f.dem or "$_" in f.dem): sync.add(n)
    asyn = {n for n, f in P.M.funcs.items() if any(start(f, i) for i in f.calls())}
    return sync, asyn - sync

def proverclass(P, c, depth=0):
    return c == "Prover" or "Prover" in P.O.bases(c)

class Abort(World):
    """sret result tracked; memory: s = stop signal known set, d = why the result is doomed, o = prover objects that will
    never finish, fill = result objects that hold data"""
    def __init__(s, P, f, sync, asyn, prods, res):
        World.__init__(s, f)
        s.P = P; s.sync = sync; s.asyn = asyn; s.prods = prods
        s.res = res
        ty = res
        s.robj = {("a", k): k for k, p in enumerate(f.params) if p.get("sret")}
        for v, i in s.allo.items():
            if clean(i.d.get("aty") or "") == res or res in f.vtypes.get(v, ()): s.robj[v] = i
        s.runs = set(); s.waits = set(); s.early = []; s.awaits = getattr(P, "awaits", set())
        s.waitloops = [b for h, b in s.heads.items() if any(i.is_call() and i.callee and (SLEEP.search(i.dem) or CVWAIT.search(i.dem) and not pred(i)) for z in b for i in f.blocks[z].insts) and not any(i.is_call() and i.callee and last(i.dem) == "IsFinished" for z in b for i in f.blocks[z].insts)]
    def start(s): return {"s": 0, "d": None, "o": frozenset(), "fill": frozenset()}
    def obj(s, v): return s.f.base_off(v)[0]
    def answer(s, i, mem, kn):
        f = s.f
        if stopload(f, i):
            if mem["s"]: return [(1, mem)]
            return [(0, mem), (1, dict(mem, s=1))]
        if not i.is_call(): return None
        c = i.callee
        if c is None:
            return s.effect(i, mem)
        nm = last(i.dem)
        if API.search(i.dem) or nm in ("IsFinished", "GetProof") and proverclass(s.P, "::".join(short(i.dem).split("::")[:-1])):
            o = s.obj(i.args[-1] if nm == "GetProof" else i.args[0])
            if nm == "IsFinished": return [(0, mem)] if o in mem["o"] else None
            return None
        if (c in s.sync or c in s.asyn) and i.args and mem["d"] is None:
            s.runs.add(i.i)
            o = s.obj(i.args[0])
            bad = dict(mem, o=mem["o"] | {o}, d="the proof computation of %s did not finish" % i.where())
            if c in s.sync: bad["s"] = 1
            return [(None, mem), (None, bad)]
        if CVWAIT.search(i.dem) and pred(i):
            s.waits.add(i.i)
            if mem["d"] is None: return [(None, mem), (None, dict(mem, s=1, d="the wait at %s ended because of the stop signal" % i.where()))]
        if c in s.prods:
            s.runs.add(i.i)
            o = s.obj(i.args[0])
            ok = dict(mem, fill=mem["fill"] | {o}) if o in s.robj else mem
            if mem["d"] is None:
                return [(None, ok), (None, dict(mem, s=1, fill=mem["fill"] - {o}, d="the nested proof of %s was aborted" % i.where()))]
            if mem["s"]: return [(None, dict(mem, fill=mem["fill"] - {o}))]
            return [(None, ok)]
        return s.effect(i, mem)
    def effect(s, i, mem):
        """what a call does to result objects"""
        f = s.f; fill = mem["fill"]; d = short(i.dem)
        os_ = [(k, s.obj(a)) for k, a in enumerate(i.args) if a and a[0] in ("v", "a")]
        hit = [(k, o) for k, o in os_ if o in s.robj]
        if not hit: return None
        if i.callee is not None and d.split("::")[0].startswith("llvm."):
            if not re.search(r"llvm\.mem(cpy|move|set)", d): return None
        own = s.f.base_off(i.args[0]) == (hit[0][1], 0)
        ctor = own and (d == s.res + "::" + s.res or re.match(r"std::vector::vector", d))
        if own and isdtor(i.dem): return [(None, dict(mem, fill=fill - {hit[0][1]}))]
        if ctor and len(i.args) == 1: return [(None, dict(mem, fill=fill - {hit[0][1]}))]
        src = [o for k, o in hit if k]
        if own and src and (ctor or d.endswith("::operator=")) and same(s.f, i.args[1]):
            fill = fill | {hit[0][1]} if src[0] in fill else fill - {hit[0][1]}
            return [(None, dict(mem, fill=fill))]
        if last(i.dem) in ("size", "empty", "data", "begin", "end", "cbegin", "cend", "hex") or re.search(r"\) const$", i.dem): return None
        new = set(fill)
        if hit[0][0] == 0: new.add(hit[0][1])
        elif not src or any(k > 0 and not re.search(r"::(vector|operator=|operator<<|insert|append)$", d) and i.callee not in REPOREAD for k, o in hit): new |= {o for k, o in hit}
        return [(None, dict(mem, fill=frozenset(new)))]
    def step(s, i, mem, e):
        if i.op == "store" and s.obj(i.ops[1]) in s.robj and i.ops[0] != ("c", "0", 8):
            # scalar members (witness type) alone make no proof
            pass
        return World.step(s, i, mem, e)
    def edge(s, b, z, mem, env):
        if mem["d"] is None and mem["s"]:
            for body in s.waitloops:
                if b in body and z not in body:
                    return dict(mem, d="the wait at %s was left because of the stop signal" % s.f.blocks[b].term.where())
        return mem
    def at(s, i, mem):
        if i.op == "ret" and mem["d"] and any(o in mem["fill"] for o in s.robj if o[0] == "a"): s.found.append((mem["d"], i))
        if mem["d"] and mem["d"].startswith("the wait") and s.awaited(i): s.early.append((mem["d"], i))
    def awaited(s, i):
        """data that is there only once the wait is over"""
        f = s.f; M = f.mod
        vs = list(i.args) if i.is_call() else [i.ops[0]] if i.op == "load" else []
        for v in vs:
            if not v or v[0] not in ("v", "a"): continue
            for c, fl, t in f.field_chain(v)[1]:
                if c in s.awaits and not re.search(r"atomic|mutex|condition_variable|integer", t) and ("form" in t or "Segment" in t): return True
        if i.is_call() and i.callee and cls_of(i.dem) in s.awaits and s.P.O.M.funcs.get(i.callee) is not None and any(p.get("sret") and "form" in p["sret"] for p in s.P.O.M.funcs[i.callee].params): return True
        return False

REPOREAD = set()
def cls_of(d): return "::".join(short(d).split("::")[:-1])
def awaits(P):
    """classes that hold forms other threads produce: the squaring callbacks and what they derive from"""
    M = P.M; r = set()
    for c, st in M.structs.items():
        if c.startswith("std::"): continue
        ms = st["members"]
        if any("atomic" in m["type"] for m in ms) and any(re.search(r"\bform\b|\bform \*|\bSegment\b", m["type"]) for m in ms): r.add(c)
    r -= {c for c in r if proverclass(P, c)}
    for c in list(M.structs):
        if not c.startswith("std::") and (P.O.bases(c) - {c}) & r and not proverclass(P, c): r.add(c)
    return r
def clean(t): return ir.clean_ty(t)
def same(f, v): return True
def pred(i): return "::wait<" in i.dem or "lambda" in i.dem or "$_" in i.dem

def returns(f, ty):
    return any(ty(clean(p["sret"])) for p in f.params if p.get("sret"))

def abort(R, P):
    M = P.M; O = P.O
    sync, asyn = provers(P)
    if not sync: raise Broken("no function generates a proof")
    isproof = lambda t: t == "Proof"
    ret = {n for n, f in M.funcs.items() if returns(f, isproof)}
    if not ret: raise Broken("no function returns a Proof")
    ev = lambda f, i: stopload(f, i) or i.is_call() and bool(i.callee) and bool(SLEEP.search(i.dem) or CVWAIT.search(i.dem)) or i.is_call() and i.callee in sync | asyn
    busy = {n for n, f in M.funcs.items() if any(ev(f, i) for i in f.all())}
    prods = {n for n in ret if n in O.may(ev)}
    if not prods: raise Broken("no function that returns a proof waits or proves")
    api = lambda f, i: ev(f, i) or i.is_call() and bool(i.callee) and last(i.dem) in ("GetProof", "IsFinished") or i.is_call() and i.callee in prods
    inl = set()
    for n in O.may(api) | (ret - prods):
        f = M.funcs[n]; c = cls(f)
        if n in prods or n in sync | asyn or last(f.dem) == "GenerateProof" or proverclass(P, c): continue
        inl.add(n)
    for n, f in M.funcs.items():
        if any(p.get("ty") == "ptr" for p in f.params) and re.search(r"[(, ]Proof&", f.dem) and n not in prods: inl.add(n)
        if n not in prods and n not in sync | asyn and not short(f.dem).startswith("std::") and not proverclass(P, cls(f)) and last(f.dem) != "GenerateProof":
            if re.search(r"vector<(class |struct )?Segment\b", f.dem.split("(", 1)[-1]) or any(i.is_call() and re.search(r"std::vector<(std::)?vector<(class |struct )?Segment\b", i.dem) for i in f.all()): inl.add(n)
    V = ir.view_if("vdf_client", lambda file, m, d: m in prods, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    tables = set()
    P.awaits = awaits(P)
    if not P.awaits: raise Broken("no class holds forms produced by another thread")
    R.saw("awaited data", ", ".join(sorted(P.awaits)))
    for n in sorted(prods):
        f = V.funcs.get(n)
        if f is None: raise Broken("no view of " + n)
        X = Abort(P, f, sync, asyn, prods, "Proof")
        fnd = X.run()
        R.saw("functions returning a proof", "%s (%d states, %d runs, %d waits, %d waiting loops)" % (f.short, X.n, len(X.runs), len(X.waits), len(X.waitloops)))
        nw = len(X.runs) + len(X.waits) + len(X.waitloops)
        if not nw: raise Broken("%s neither waits nor proves" % f.short)
        msgs = {}
        for d, i in fnd: msgs.setdefault(d, i)
        for d, i in sorted(msgs.items()):
            R.bad("P05.abort", re.search(r"\S+:\S+", d).group(0), "%s returns a filled proof although %s" % (f.short, d), key="%s: %s" % (f.short, re.sub(r"\S+:\d+ ?", "", d)))
        em = {}
        for d, i in X.early: em.setdefault(d, i)
        for d, i in em.items(): R.bad("P05.abort", i.where(), "%s reads the awaited data although %s" % (f.short, d), key="%s reads early: %s" % (f.short, re.sub(r"\S+:\d+ ?", "", d)))
        for k in range(nw - len(msgs)): R.ok("P05.abort", inst="%s #%d" % (f.short, k))
        if cover(R, P, f, sync, asyn, prods): tables |= tables_read(f)
    if not tables: raise Broken("no function assembles a proof from stored segments")
    loop(R, P, tables)


# ---------------------------------------------------------------- segments
def leafs(f, v, depth=0):
    """canonical form of an address built with accessors, over SSA leaves"""
    i = f.inst(v)
    if depth > 20 or i is None: return v
    if i.op in ("zext", "sext", "trunc", "freeze", "bitcast"): return leafs(f, i.ops[0], depth + 1)
    if i.op == "getelementptr": return ("gep", i.d.get("off"), leafs(f, i.ops[0], depth + 1)) + (() if "off" in i.d else tuple(leafs(f, x, depth + 1) for x in i.ops[1:]))
    if i.is_call() and i.args and last(i.dem).split("[")[0] in ("operator", "operator[]", "at", "operator->", "operator*", "get", "begin", "front", "back", "base") or i.is_call() and "operator[]" in i.dem:
        return (last(i.dem),) + tuple(leafs(f, a, depth + 1) for a in i.args)
    return v

def strip(f, v):
    while True:
        i = f.inst(v)
        if i is not None and i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]
        else: return v

def element(f, v, depth=0):
    """(outer index, inner index) if v points into an element of a vector of vectors that is a member"""
    i = f.inst(v)
    while i is not None and i.op == "getelementptr" and i.d.get("off") is not None: v = i.ops[0]; i = f.inst(v)
    if i is None or not i.is_call() or not re.search(r"std::vector<(class |struct )?Segment\b", i.dem) or not re.search(r"::(operator\[\]|at)\b", i.dem) and "operator[]" not in i.dem: return None
    j = f.inst(i.args[0])
    if j is None or not j.is_call() or "std::vector<std::vector<" not in j.dem: return None
    return strip(f, j.args[1]), strip(f, i.args[1])

APPEND = ("emplace_back", "push_back", "insert", "emplace", "push_front", "emplace_front")

class Cover(Abort):
    """world in which the counted iterations never reach the requested ones (counter and request are given values)"""
    def __init__(s, P, f, sync, asyn, prods, cluster, slots, val, req):
        Abort.__init__(s, P, f, sync, asyn, prods, "Proof")
        s.cluster = cluster; s.slots = slots; s.value = val
        for k, p in enumerate(f.params):
            if p.get("ty") == "i64": s.params[k] = req
    def forced(s, i):
        if i.i in s.cluster: return s.value
        if i.op == "load" and s.slot(i.ops[0]) in s.slots: return s.value
        return None
    def answer(s, i, mem, kn):
        if i.is_call() and i.callee in s.sync | s.asyn: return None
        r = Abort.answer(s, i, mem, kn)
        return r
    def at(s, i, mem):
        if i.op == "ret" and any(o in mem["fill"] for o in s.robj if o[0] == "a"): s.found.append(("uncovered", i))

class Guard(World):
    """world in which the stored segments are all empty / the tables have no entries"""
    def __init__(s, f, what, sites, emp):
        World.__init__(s, f); s.what = what; s.sites = sites; s.emp = emp
    def answer(s, i, mem, kn):
        if s.what == "empty" and i.i in s.emp: return [(1, mem)]
        if s.what == "size" and i.is_call() and last(i.dem) == "size" and re.search(r"std::vector<(class |struct )?Segment\b", i.dem) and tablevec(s.f, i.args[0]): return [(0, mem)]
        if s.what == "size" and i.is_call() and last(i.dem) == "empty" and re.search(r"std::vector<(class |struct )?Segment\b", i.dem) and tablevec(s.f, i.args[0]): return [(1, mem)]
        return None
    def at(s, i, mem):
        if i.i in s.sites: s.found.append((s.what, i))

def tablevec(f, v):
    j = f.inst(v)
    return j is not None and j.is_call() and "std::vector<std::vector<" in j.dem

class Reset(World):
    """accumulation is entered only with an empty list and a zero counter"""
    def __init__(s, f, head, body, vec, sites, phis, slots):
        World.__init__(s, f); s.head = head; s.body = body; s.vec = vec; s.sites = sites; s.phis = phis; s.slots = slots
    def start(s): return {"dirty": 0}
    def answer(s, i, mem, kn):
        if i.i in s.sites: return [(None, dict(mem, dirty=1))]
        if i.is_call() and i.args and s.f.base_off(i.args[0])[0] == s.vec:
            n = last(i.dem)
            if n in ("clear",) or n == "vector" and len(i.args) <= 2 or isdtor(i.dem): return [(None, dict(mem, dirty=0))]
        return None
    def edge(s, b, z, mem, env):
        if z == s.head and b not in s.body:
            if mem["dirty"]: s.found.append(("list", s.f.blocks[b].term))
            for p in s.phis:
                for v, pb in s.f.phi_inc(p):
                    if pb == b and s.val(v, env) != 0: s.found.append(("counter", s.f.blocks[b].term))
            for k in s.slots:
                if env.get(k) != 0: s.found.append(("counter", s.f.blocks[b].term))
            mem = dict(mem, dirty=0)
        return mem

def cover(R, P, f, sync, asyn, prods):
    """the function takes finished segments from the shared table"""
    allo = {("v", i.i) for i in f.all() if i.op == "alloca"}
    seg = re.compile(r"std::vector<(class |struct )?Segment, std::allocator<")
    vecs = {v for v in allo if seg.search(clean(f.inst(v).d.get("aty") or "")) or any(re.match(r"(std::)?vector<Segment", t) for t in f.vtypes.get(v, ()))}
    ap = []
    for i in f.calls():
        if last(i.dem).split("[")[0].split("<")[0] not in APPEND or not i.args or f.base_off(i.args[0])[0] not in allo: continue
        e = [element(f, a) for a in i.args[1:]]
        e = [x for x in e if x]
        if not e:
            # element copied to a local first
            for a in i.args[1:]:
                o = f.base_off(a)[0]
                for c in f.calls():
                    if o in allo and len(c.args) == 2 and f.base_off(c.args[0]) == (o, 0) and re.search(r"Segment::(Segment|operator=)", c.dem) and element(f, c.args[1]): e.append(element(f, c.args[1]))
        if e: ap.append((i, e[0]))
    if not ap: return 0
    R.saw("assemblies", "%s: %d appends of stored segments" % (f.short, len(ap)))
    sites = {i.i for i, e in ap}
    # emptiness and presence tests
    emp = {}
    for i in f.all():
        if i.op != "load" or not any(c.endswith("Segment::is_empty") for c in f.fields_of(i.ops[0])): continue
        e = element(f, i.ops[0])
        if e is None:
            o = f.base_off(i.ops[0])[0]
            for c in f.calls():
                if o in allo and len(c.args) == 2 and f.base_off(c.args[0]) == (o, 0) and re.search(r"Segment::(Segment|operator=)", c.dem) and element(f, c.args[1]): e = element(f, c.args[1])
        if e is not None: emp[i.i] = e
    for i, e in ap:
        mine = {k for k, x in emp.items() if x == e}
        X = Guard(f, "empty", {i.i}, mine); X.run()
        R.check("P05.cover", not X.found, i.where(), "%s takes a stored segment that may be empty (a placeholder)" % f.short, inst="%s: %s takes non-empty segments" % (f.short, i.where()), key="%s empty" % f.short)
        X = Guard(f, "size", {i.i}, set()); X.run()
        R.check("P05.cover", not X.found, i.where(), "%s takes a segment beyond the stored ones" % f.short, inst="%s: %s takes present segments" % (f.short, i.where()), key="%s size" % f.short)
    # the counter
    loops = f.loops()
    for i, e in ap:
        ins = sorted((b for h, b in loops.items() if i.bb in b), key=len)
        if not ins: raise Broken("%s: stored segments are not taken in a loop" % i.where())
        inner = ins[0]
        block = lambda b: any(k.is_call() and k.callee and (SLEEP.search(k.dem) or CVWAIT.search(k.dem)) for z in b for k in f.blocks[z].insts)
        outer = [b for b in ins if not block(b)][-1]
        cluster = set(); slots = set()
        for b in inner:
            for k in f.blocks[b].insts:
                if k.op != "add" or k.ty != "i64" or k.ops[1][0] == "c" and k.ops[1][1] in ("1", "-1"): continue
                for v, o in ((k.ops[0], k.ops[1]), (k.ops[1], k.ops[0])):
                    j = f.inst(v)
                    if j is None or o[0] == "c" and o[1] == "1": continue
                    if j.op == "phi":
                        g = phigroup(f, j.i, k.i)
                        if g and back(f, k.i, j.i): cluster |= g
                    elif j.op == "load":
                        for u in f.users.get(("v", k.i), ()):
                            if u.op == "store" and u.ops[1] == j.ops[0] and f.base_off(j.ops[0])[0] in allo: slots.add(("m", f.base_off(j.ops[0])[0][1], f.base_off(j.ops[0])[1]))
        if not cluster and not slots:
            R.bad("P05.cover", i.where(), "%s does not count the iterations of the segments it takes" % f.short, key="%s count" % f.short); continue
        req = 10 * 65536 + 77
        for val in (9 * 65536, 0):
            for rq in (req, 10 * 65536):
                X = Cover(P, f, sync, asyn, prods, cluster, slots, val, rq); X.run()
                R.check("P05.cover", not X.found, (X.found[0][1] if X.found else i).where(), "%s returns a proof although the segments it took cover only %d of %d iterations" % (f.short, val, rq), inst="%s: nothing returned at %d of %d" % (f.short, val, rq), key="%s uncovered" % f.short)
        X = Cover(P, f, sync, asyn, prods, cluster, slots, 10 * 65536, 10 * 65536); X.run()
        if not X.found: raise Broken("%s: no path returns a proof when everything is covered" % f.short)
        vec = f.base_off(i.args[0])[0]
        hd = [h for h, b in loops.items() if b is outer or b == outer][0]
        phis = [p for p in f.blocks[hd].insts if p.op == "phi" and p.i in cluster]
        X = Reset(f, hd, outer, vec, sites, phis, slots); X.run()
        for what, t in ({w: t for w, t in X.found}).items():
            R.bad("P05.cover", t.where(), "%s starts collecting segments again with a %s left over from the previous attempt" % (f.short, what), key="%s reset %s" % (f.short, what))
        if not X.found: R.ok("P05.cover", "%s: each attempt starts with an empty list and a zero count" % f.short)
    return len(ap)

def phigroup(f, start, add):
    g = set(); st = [start]
    while st:
        k = st.pop()
        if k in g: continue
        i = f.insts[k]
        if i.op != "phi": continue
        g.add(k)
        for v, b in f.phi_inc(i):
            j = f.inst(v)
            if j is not None and j.op == "phi": st.append(j.i)
    return g

def back(f, add, phi):
    """the sum flows back into the phi"""
    seen = set(); st = [add]
    while st:
        k = st.pop()
        for u in f.users.get(("v", k), ()):
            if u.op == "phi" and u.i not in seen:
                if u.i == phi: return True
                seen.add(u.i); st.append(u.i)
    return False

# ---------------------------------------------------------------- event loop
class Publish(World):
    ints = False
    """g: None nothing known, ("f", o) o reported completion, ("p", o) its proof was read"""
    def __init__(s, P, f):
        World.__init__(s, f); s.P = P; s.reads = set(); s.puts = set()
        s.default = set()
        for i in f.calls():
            if re.search(r"Segment::Segment\(\)", i.dem) and len(i.args) == 1: s.default.add(f.base_off(i.args[0])[0])
    def start(s): return {"g": None}
    def answer(s, i, mem, kn):
        if not i.is_call() or not i.callee: return None
        n = last(i.dem)
        if n == "IsFinished" and i.args:
            return [(0, dict(mem, g=None)), (1, dict(mem, g=("f", leafs(s.f, i.args[0]))))]
        if n == "GetProof":
            s.reads.add(i.i); o = leafs(s.f, i.args[-1])
            if mem["g"] != ("f", o) and mem["g"] != ("p", o): s.found.append(("read", i))
            return [(None, dict(mem, g=("p", o)))]
        if s.put(i):
            s.puts.add(i.i)
            if mem["g"] is None or mem["g"][0] != "p": s.found.append(("put", i))
        return None
    def put(s, i):
        """a segment other than a placeholder goes into a table of tables"""
        f = s.f
        if "Segment::operator=" in i.dem and len(i.args) == 2: return element(f, i.args[0]) is not None and f.base_off(i.args[1])[0] not in s.default and "pending" not in str(f.fields_of(table(f, i.args[0])))
        if n_in(i, APPEND + ("resize", "assign")) and i.args and tablevec(f, i.args[0]) and len(i.args) > 1:
            t = f.inst(i.args[0]).args[0]
            if s.reader(t): return any(f.base_off(a)[0] not in s.default for a in i.args[1:] if a[0] in ("v", "a") and f.inst(a) is not None and f.inst(a).ty == "ptr")
        return False
    def reader(s, t): return bool(s.f.fields_of(t) & s.tables)

def n_in(i, names): return last(i.dem).split("[")[0].split("<")[0] in names
def table(f, v):
    i = f.inst(v)
    while i is not None and i.op == "getelementptr": v = i.ops[0]; i = f.inst(v)
    return f.inst(i.args[0]).args[0]

def tables_read(f):
    """member tables whose elements the function takes"""
    r = set()
    for i in f.calls():
        if i.args and tablevec(f, i.args[0]) and "operator[]" in i.dem: r |= f.fields_of(f.inst(i.args[0]).args[0])
    return r

def loop(R, P, tables):
    M = P.M; O = P.O
    get = lambda f, i: i.is_call() and bool(i.callee) and last(i.dem) in ("GetProof", "IsFinished") and proverclass(P, "::".join(short(i.dem).split("::")[:-1]))
    roots = {e for e in P.C.entries | set(P.L.entries) if e in O.may(get)}
    roots = {e for e in roots if any(last(M.funcs[t].dem) != "x" for t in [e])}
    # thread bodies that look at provers of others
    loc = lambda f, i: get(f, i) and f.inst(f.base_off(i.args[-1] if last(i.dem) == "GetProof" else i.args[0])[0]) is not None and f.inst(f.base_off(i.args[-1] if last(i.dem) == "GetProof" else i.args[0])[0]).op != "alloca"
    holders = {n for n, f in M.funcs.items() if any(loc(f, i) for i in f.calls()) and not proverclass(P, cls(f))}
    if not holders: raise Broken("no event loop looks at other threads' provers")
    top = set()
    up = O.callers()
    st = list(holders); seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        cs = {g.name for g, i in up.get(n, ())} - {n}
        cs = {c for c in cs if cls(M.funcs[c]) == cls(M.funcs[n])}
        if n in P.L.entries or not cs: top.add(n)
        else: st += list(cs)
    inl = seen - top
    put = lambda f, i: i.is_call() and bool(i.callee) and ("Segment::operator=" in i.dem or tablevec(f, i.args[0]) if i.args else False)
    inl |= {n for n in O.may(put) if M.funcs[n].short.split("::")[:-1] in [M.funcs[t].short.split("::")[:-1] for t in top]} - top
    V = ir.view_if("vdf_client", lambda file, m, d: m in top, lambda file, m, d: m not in inl or "lambda" in d, passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(top):
        f = V.funcs[n]
        X = Publish(P, f); X.tables = tables
        X.run()
        R.saw("event loops", "%s (%d states, %d reads, %d publications)" % (f.short, X.n, len(X.reads), len(X.puts)))
        if not X.puts: raise Broken("%s publishes nothing" % f.short)
        for k in sorted(X.reads | X.puts):
            i = f.insts[k]; bad = [w for w, j in X.found if j.i == k]
            R.check("P05.loop", not bad, i.where(), "%s %s a segment whose own prover did not report completion" % (f.short, "reads the proof of" if "read" in bad else "publishes"), inst="%s: %s" % (f.short, i.where()), key="%s %s" % (f.short, "read" if k in X.reads else "put"))

# ---------------------------------------------------------------- completion
SLOTS = {}
def slots(P):
    """which virtual function of the prover interface stands in which slot"""
    for c in P.O.vt:
        if proverclass(P, c):
            for n, t in enumerate(P.O.vt[c]):
                if t in P.M.funcs and "~" not in P.M.funcs[t].dem: SLOTS[n] = last(P.M.funcs[t].dem)
    if "PerformExtraStep" not in SLOTS.values() or "OnFinish" not in SLOTS.values(): raise Broken("the prover interface has no interruption test or completion report")
def vnames(P, f, i):
    r = {last(P.M.funcs[t].dem) for t in P.O.virt(f, i)}
    if not r and i.callee is None and proverclass(P, cls(f)):
        n = P.O.slot(f, i)
        if n in SLOTS: r = {SLOTS[n]}
    return r
class Extra(World):
    """the interruption test answers 'stop' once and from then on"""
    def __init__(s, P, f, parts):
        World.__init__(s, f); s.P = P; s.parts = parts; s.tests = set(); s.reports = set()
    def start(s): return {"z": None, "thr": 0}
    def names(s, i):
        """what the call is, by the names of its possible targets"""
        if i.callee: return {last(i.dem)}
        return vnames(s.P, s.f, i)
    def answer(s, i, mem, kn):
        if not i.is_call(): return None
        n = s.names(i)
        if "PerformExtraStep" in n:
            s.tests.add(i.i)
            if mem["z"]: return [(0, mem)]
            return [(1, mem), (0, dict(mem, z=i.where()))]
        if "OnFinish" in n:
            s.reports.add(i.i)
            if mem["z"]: s.found.append((mem["z"], i))
            return None
        if s.P.L.is_thread_start(i):
            return [(None, dict(mem, thr=1))] if s.P.L.thread_bodies(s.f, i) & s.pbodies else None
        if mem["thr"] and not mem["z"] and i.callee and re.search(r"std::(thread|jthread)::join|std::future<.*>::(get|wait)", i.dem): return [(None, mem), (None, dict(mem, z=i.where()))]
        t = s.P.O.targets(s.f, i)
        if t & s.parts and not mem["z"]: return [(None, mem), (None, dict(mem, z=i.where()))]
        return None

class Stopped(World):
    """every flag test answers 'set'"""
    def start(s): return {"t": 0}
    def answer(s, i, mem, kn):
        if stopload(s.f, i): return [(1, dict(mem, t=1))]
        return None
    def step(s, i, mem, e):
        if i.op == "ret":
            if s.val(i.ops[0], e) not in (0,) : s.found.append((mem["t"], i))
        return World.step(s, i, mem, e)

def flags(R, P):
    M = P.M; O = P.O
    names = {}
    for n, f in M.funcs.items():
        if proverclass(P, cls(f)) and "lambda" not in f.dem and "$_" not in f.dem: names.setdefault(last(f.dem), []).append(n)
    ev = lambda nm: (lambda f, i: i.is_call() and (last(i.dem) == nm if i.callee else nm in vnames(P, f, i)))
    step, fin = ev("PerformExtraStep"), ev("OnFinish")
    ms = O.may(step)
    roots = {n for n, f in M.funcs.items() if any(fin(f, i) for i in f.calls())}
    if not roots and not names.get("OnFinish"): raise Broken("no prover reports completion in " + P.tu)
    # helpers whose result carries the answer are analysed inside; parts that just end early are not
    # a helper that only reports is analysed inside the functions that call it
    help_ = set()
    while True:
        h = {n: {m for m, f in M.funcs.items() if any(i.callee == n for i in f.calls())} - {n} for n in roots if n not in ms and last(M.funcs[n].dem) != "OnFinish"}
        h = {n: c for n, c in h.items() if c}
        if not h: break
        for n, c in h.items(): roots.discard(n); help_.add(n); roots |= c - help_
    inl = help_ | {n for n in ms if n not in roots and M.funcs[n].ret != "void" and last(M.funcs[n].dem) != "PerformExtraStep"}
    parts = {n for n in ms if n not in roots and n not in inl and last(M.funcs[n].dem) != "PerformExtraStep"}
    ov = set(names.get("PerformExtraStep", []))
    V = None if not roots | ov else ir.view_if(P.tu, lambda file, m, d: m in roots or m in ov, lambda file, m, d: m not in inl and m not in stepinl(P), passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(roots):
        f = V.funcs.get(n)
        if f is None: continue
        X = Extra(P, f, parts); X.pbodies = ms; X.run()
        R.saw("completion reports", "%s: %s (%d tests, %d reports)" % (P.tu, f.short, len(X.tests), len(X.reports)))
        if not X.tests: R.bad("P05.extra", f.blocks[0].insts[0].where(), "%s reports completion without ever asking whether it was interrupted" % f.short, key="%s %s untested" % (P.tu, f.short)); continue
        msgs = {}
        for z, i in X.found: msgs.setdefault(z, i)
        for z, i in msgs.items(): R.bad("P05.extra", z, "%s reports completion (%s) although the interruption test or part at %s said stop" % (f.short, i.where(), z), key="%s interrupted" % f.short)
        for k in sorted(X.tests):
            if f.insts[k].where() not in msgs: R.ok("P05.extra", "%s %s: interruption test at %s obeyed" % (P.tu, f.short, f.insts[k].where()))
    for n in sorted(ov):
        f = V.funcs.get(n)
        if f is None: continue
        X = Stopped(f); X.run()
        R.check("P05.extra", not X.found, (X.found[0][1] if X.found else f.blocks[0].insts[0]).where(), "%s answers 'go on' although its stop signal is set" % f.short, inst="%s %s is false once stopped" % (P.tu, f.short), key="%s stopped" % f.short)
    # the completion flag
    isf = [M.funcs[n] for n in names.get("IsFinished", [])]
    fl = set()
    for f in isf:
        for i in f.all():
            if i.op == "load" or i.is_call(): fl |= f.fields_of(i.ops[0] if i.op == "load" else i.args[0]) if (i.op == "load" or i.args) else set()
    fl = {x for x in fl if x.split("::")[-1] != "<base>"}
    if isf and not fl: raise Broken("no completion flag in " + P.tu)
    fl.add("Prover::is_finished")
    for n, f in M.funcs.items():
        for i in f.all():
            v = None
            if i.is_call() and i.callee and len(i.args) >= 2 and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::")) and re.search(r"::(operator=|store|exchange)\b|operator=", i.dem): v, a = i.args[1], i.args[0]
            elif i.op == "store" and len(i.ops) == 2: v, a = i.ops[0], i.ops[1]
            if v is None or not f.fields_of(a) & fl: continue
            if v[0] == "c" and int(v[1]) == 0: continue
            k = last(f.dem)
            ok = k == "OnFinish" or onlyfrom(P, n, "OnFinish")
            why = "raised by the completion report"
            if not ok:
                ok = quiet(P, n); why = "raised when nobody reads results any more"
            R.check("P05.flag", ok, i.where(), "%s marks the prover finished although its proof may not be complete" % f.short, inst="%s %s: %s" % (P.tu, f.short, why), key="%s raises completion" % f.short)

def stepinl(P):
    if not hasattr(P, "_stepinl"):
        M = P.M
        P._stepinl = {n for n, f in M.funcs.items() if any(stopload(f, i) for i in f.all()) and not proverclass(P, cls(f))}
        ch = set()
        for n, f in M.funcs.items():
            if proverclass(P, cls(f)) and last(f.dem) not in ("PerformExtraStep", "OnFinish", "GenerateProof", "IsFinished", "GetProof", "start", "stop") and any(stopload(f, i) for i in f.all()): ch.add(n)
        P._stepinl |= ch
    return P._stepinl

def onlyfrom(P, n, name):
    cs = P.O.callers().get(n, [])
    return bool(cs) and all(last(g.dem) == name for g, i in cs)

def quiet(P, n):
    """every call of the function comes after a join, so that the thread that reads results has ended"""
    readers = [e for e in P.L.entries if e in P.O.may(lambda f, i: i.is_call() and bool(i.callee) and last(i.dem) == "GetProof")]
    join = lambda f, i: i.is_call() and bool(i.callee) and short(i.dem) == "std::thread::join"
    cs = P.O.callers().get(n, [])
    if not cs: return True
    ok = True
    for g, i in cs:
        if g.name in P.O.may(lambda f, j: i is j) and any(g.name in P.C.reach({e}) for e in readers): return False
        # a local prover is stopped by the function that proves with it
        if i.args and g.inst(g.base_off(i.args[0])[0]) is not None and g.inst(g.base_off(i.args[0])[0]).op == "alloca" and i.callee: continue
        if isdtor(g.dem): continue
        if not P.O.before_up(g, i, join): ok = False
    return ok

# ---------------------------------------------------------------- slow proving
PROBE = re.compile(r"^(stat|lstat|stat64|access|faccessat|open|open64|fopen|fopen64)$")
class Slow(Abort):
    def answer(s, i, mem, kn):
        if i.is_call() and i.callee:
            if PROBE.match(i.callee) or "std::filesystem::exists" in i.dem:
                s.probes.add(i.i)
                fail = 0 if i.ty in ("i1", "ptr") else (1 << 32) - 1
                if mem["d"]: return [(fail, mem)]
                return [(None, mem), (fail, dict(mem, d="the probe at %s reports the file gone" % i.where()))]
        if i.op == "load" and mem["d"]:
            j = s.f.inst(i.ops[0])
            if j is not None and j.is_call() and j.callee == "__errno_location": return [(2, mem)]
        if i.is_call() and not i.callee: return None
        return Abort.answer(s, i, mem, kn)

def slow(R, tu):
    L = ir.listing(tu)
    V0 = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    probe = lambda f, i: i.is_call() and bool(i.callee) and (bool(PROBE.match(i.callee)) or "std::filesystem::exists" in i.dem)
    direct = {n for n, f in V0.funcs.items() if any(probe(f, i) for i in f.calls())}
    up = {}
    for f in V0.funcs.values():
        for i in f.calls(): up.setdefault(i.callee, set()).add(f.name)
    isv = lambda t: "vector" in t
    roots = set(); inl = set(); st = list(direct); seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if returns(V0.funcs[n], isv): roots.add(n)
        else: inl.add(n); st += [c for c in up.get(n, ()) if c]
    if not roots: raise Broken("no function that returns a proof asks whether it was cancelled")
    V = ir.view_if(tu, lambda file, m, d: m in roots, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    class _P: pass
    for n in sorted(roots):
        f = V.funcs[n]
        X = Slow(_P, f, set(), set(), set(), clean([p["sret"] for p in f.params if p.get("sret")][0]))
        X.probes = set(); X.run()
        R.saw("slow proving", "%s (%d probes, %d states)" % (f.short, len(X.probes), X.n))
        R.check("P05.slow", not X.found, (X.found[0][1] if X.found else f.blocks[0].insts[0]).where(), "%s returns data although %s" % (f.short, X.found[0][0] if X.found else ""), inst="%s: empty result once cancelled" % f.short, key="%s cancelled" % f.short)

# ---------------------------------------------------------------- hardware proofs
class Hw(Abort):
    def event(s, i):
        f = s.f
        if i.is_call() and i.args and n_in(i, APPEND) and any(x.endswith("::done_proofs") for x in f.fields_of(i.args[0])): return "queued for sending"
        if i.op == "store" and any(x.endswith("vdf_proof::flags") for x in f.fields_of(i.ops[1])):
            j = f.inst(i.ops[0])
            while j is not None and j.op in ("trunc", "zext"): j = f.inst(j.ops[0])
            if j is None or j.op == "or" and j.ops[1][0] == "c" and int(j.ops[1][1]) & 1 or j.op not in ("or", "and"): return "marked done"
        return None
    def at(s, i, mem):
        e = s.event(i)
        if e:
            s.events.add((i.i, e))
            if mem["d"]: s.found.append((mem["d"], i, e))

class NotDone(World):
    """every predecessor exists and none is done"""
    def forced(s, i):
        if i.op == "load":
            fs = s.f.fields_of(i.ops[0])
            if any(x.endswith("vdf_proof::flags") for x in fs): return 0
            if any(x.endswith("vdf_proof::prev") for x in fs): return 1
        return None
    def at(s, i, mem):
        if i.op == "store" and i.ops[1] == ("a", s.out): s.found.append(("handed out", i))

def hw(R, Q):
    M = Q.M; O = Q.O
    sync, asyn = provers(Q)
    run_ = lambda f, i: i.is_call() and bool(O.targets(f, i) & (sync | asyn))
    mine = {n for n, f in M.funcs.items() if not proverclass(Q, cls(f)) and any(run_(f, i) and i.args and f.inst(f.base_off(i.args[0])[0]) is not None and f.inst(f.base_off(i.args[0])[0]).op == "alloca" for i in f.calls())}
    mark = lambda f, i: i.is_call() and bool(i.callee) and bool(i.args) and any(x.endswith("::done_proofs") for x in f.fields_of(i.args[0])) or i.op == "store" and any(x.endswith("vdf_proof::flags") for x in f.fields_of(i.ops[1]))
    slp = lambda f, i: stopload(f, i) or i.is_call() and bool(i.callee) and bool(SLEEP.search(i.dem))
    api = lambda f, i: i.is_call() and bool(i.callee) and last(i.dem) in ("IsFinished", "GetProof")
    roots = set()
    for n in mine:
        st = [n]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in O.may(mark) or x in Q.L.entries or not O.callers().get(x): roots.add(x)
            else: st += [g.name for g, i in O.callers()[x]]
    if not roots: raise Broken("no function computes hardware proofs")
    inl = {n for n in O.may(mark) | O.may(slp) | O.may(api) | mine if n not in roots and n not in sync | asyn and not proverclass(Q, cls(M.funcs[n]))}
    V = ir.view_if("hw_proof", lambda file, m, d: m in roots, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(roots):
        f = V.funcs[n]
        X = Hw(Q, f, sync, asyn, set(), "-"); X.events = set(); X.run()
        R.saw("hardware proving", "%s (%d runs, %d waiting loops, %d states)" % (f.short, len(X.runs), len(X.waitloops), X.n))
        if not X.events or not X.runs: raise Broken("%s marks nothing" % f.short)
        for k, e in sorted(X.events):
            b = [d for d, i, x in X.found if i.i == k]
            R.check("P05.hw", not b, f.insts[k].where(), "%s: a segment is %s although %s" % (f.short, e, b[0] if b else ""), inst="%s: %s only when computed" % (f.short, e), key="%s %s" % (f.short, e))
    ret = [f for f in M.funcs.values() if any(p.get("ty") == "ptr" for p in f.params) and any(i.is_call() and i.args and last(i.dem) in ("erase", "clear", "pop_back") and any(x.endswith("::done_proofs") for x in f.fields_of(i.args[0])) for i in f.calls()) and any(i.op == "store" and i.ops[1][0] == "a" for i in f.all())]
    if not ret: raise Broken("no function hands out hardware proofs")
    inl2 = {n for n, f in M.funcs.items() if any(i.op == "load" and any(x.endswith(("vdf_proof::flags", "vdf_proof::prev")) for x in f.fields_of(i.ops[0])) for i in f.all())}
    rn = {f.name for f in ret}
    V = ir.view_if("hw_proof", lambda file, m, d: m in rn, lambda file, m, d: m not in inl2, passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(rn):
        f = V.funcs[n]
        for k in {i.ops[1][1] for i in f.all() if i.op == "store" and i.ops[1][0] == "a"}:
            X = NotDone(f); X.out = k; X.run()
            R.check("P05.hw", not X.found, (X.found[0][1] if X.found else f.blocks[0].insts[0]).where(), "%s hands out a proof although a segment it builds on is not done" % f.short, inst="%s: complete chains only" % f.short, key="%s chain" % f.short)
