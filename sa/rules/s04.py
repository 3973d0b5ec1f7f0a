"""S04: threads are joined before what they use is destroyed."""
import re
from .. import ir, locks, threads
from ..ir import Broken, short, clean_ty
from ..order import Order, vtables
from ..threads import Throws, Owners, Live, objs, last, isdtor, THREAD_T
from .p01 import Ctx

UNITS = ("vdf_client", "vdf_base", "hw_proof", "hw_client")

def run(R):
    R.rule("S04.class", "a class that holds threads joins all of them in its destructor, or in a stop method its users must call, on every path on which one may have been started", floor=3)
    R.rule("S04.order", "a method that joins threads destroys nothing the threads may use before it joined them, and stops nothing a running thread can still start", floor=3)
    R.rule("S04.flag", "a flag that records that a thread was joined is set only after the join", floor=0)
    R.rule("S04.exit", "no function that owns threads is left, by return or by exception, while one of them has not been joined", floor=5)
    R.rule("S04.use", "nothing a live thread refers to is destroyed", floor=5)
    R.rule("S04.detached", "a detached hardware proof thread touches nothing of its VDF after it reported being finished, and is recorded as busy before it starts", floor=4)
    R.rule("S04.teardown", "the state of a hardware VDF is cleared only after waiting for all its detached threads", floor=1)
    covered = set(); sites = []
    for tu in UNITS: unit(R, tu, covered, sites)
    for tu, f, i in sites:
        if (i.loc and tuple(i.loc[:2])) not in covered:
            raise Broken("%s: the thread started in %s is owned by nothing that was analysed" % (i.where(), short(f.dem)))
    R.assume_("failure to allocate memory and failure to start a thread are not considered as exceptions")
    R.assume_("thread bodies end (P04) and exceptions do not escape them")

class Prog:
    """the not-inlined program of one unit with its thread-holding classes"""
    def __init__(s, tu):
        s.tu = tu
        s.C = Ctx(tu); s.M = s.C.M; s.L = s.C.L; s.O = Order(s.C)
        s.ow = Owners(s.O)
        s.holds = {}
        for c, ms in s.ow.cls.items(): s.holds[c] = set(ms)
        ch = True
        while ch:
            ch = False
            for n, st in s.M.structs.items():
                if n.startswith(("std::", "boost::", "_", "class.", "(")) or n not in s.ow.cls and not any(s.ow.method(f) == n for f in s.M.funcs.values()): continue
                for m in st["members"]:
                    if m["name"] == "<base>": continue
                    for c in s.ow.cls:
                        if re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(c), m["type"]) and c != n and (m["type"] == c or re.search(r"(unique_ptr|vector|optional|shared_ptr|pair|deque|list|map)<", m["type"])):
                            if m["name"] not in s.holds.setdefault(n, set()): s.holds[n].add(m["name"]); ch = True
        for c in s.holds: s.ow.cls.setdefault(c, [])
        s.ow.joining = set(); s.joins_member = {}
        ch = True
        while ch:
            ch = False
            for f in s.M.funcs.values():
                c = s.ow.method(f)
                if c not in s.holds or f.name in s.ow.joining: continue
                if last(f.dem) == c: continue
                if all(s.joined_on_all(f, c, m) for m in s.holds[c]): s.ow.joining.add(f.name); ch = True
        s.th = Throws(s.O)
    # ---- joins of a member
    def field(s, f, v):
        """member of this object a pointer leads into"""
        for _ in range(12):
            b, ch = f.field_chain(v)
            x = [k for k in ch if not k[1].startswith("_M_") and k[0] in s.holds]
            if x: return x[0][1] if len(x) == 1 else x[-1][1]
            i = f.inst(f.base_off(v)[0])
            if i is None: return None
            if i.op == "load":
                a = f.base_off(i.ops[0])[0]; ai = f.inst(a)
                if ai is not None and ai.op == "alloca":
                    sts = [z for z in threads.stores_to(f).get(a, ()) if z.ops[0][0] == "v"]
                    if len(sts) == 1: v = sts[0].ops[0]; continue
                    return None
                v = i.ops[0]; continue
            if i.is_call() and i.args: v = i.args[0]; continue
            if i.op == "phi":
                r = {s.field(f, w) for w, _ in f.phi_inc(i) if f.base_off(w)[0] != ("v", i.i)} - {None}
                return r.pop() if len(r) == 1 else None
            if i.op == "alloca":      # an iterator or reference object
                for k in f.users.get(("v", i.i), ()):
                    if k.op == "store" and k.ops[1] == ("v", i.i) and k.ops[0][0] == "v":
                        r = s.field(f, k.ops[0])
                        if r: return r
                    if k.is_call() and k.args and k.args[0] == ("v", i.i) and len(k.args) > 1:
                        r = s.field(f, k.args[1])
                        if r: return r
                for z in threads.stores_to(f).get(("v", i.i), ()):
                    if z.ops[0][0] == "v":
                        r = s.field(f, z.ops[0])
                        if r: return r
                return None
            return None
        return None
    def elem_class(s, f, i):
        """class of the object a virtual call is made on"""
        if not i.args: return None
        x = f.inst(i.args[0])
        while x is not None and x.op == "load": x = f.inst(x.ops[0])
        t = x.dem if x is not None and x.is_call() else ""
        for c in s.holds:
            if re.search(r"(unique_ptr|shared_ptr)<%s\b" % re.escape(c), t): return c
        for v in f.vtypes.get(i.args[0], ()):
            if v in s.holds: return v
        return None
    def joincalls(s, f):
        """call -> joined member of this (or None)"""
        if f.name in s.joins_member: return s.joins_member[f.name]
        r = {}
        for i in f.calls():
            if short(i.dem) == "std::thread::join": r[i.i] = s.field(f, i.args[0])
            elif i.callee in s.ow.joining:
                if i.args and i.args[0] == ("a", 0) and s.ow.method(s.M.funcs[i.callee]) == s.ow.method(f): r[i.i] = "*"
                else: r[i.i] = s.field(f, i.args[0])
            elif i.callee is None and i.args:
                me = i.args[0] == ("a", 0) and s.ow.method(f) in s.holds
                c = s.ow.method(f) if me else s.elem_class(f, i); n = s.O.slot(f, i)
                if c and n is not None and c in s.O.vt and n < len(s.O.vt[c]) and s.O.vt[c][n] in s.ow.joining: r[i.i] = "*" if me else s.field(f, i.args[0])
            elif short(i.dem) == "std::for_each" and any(short(k.dem) == "std::thread::join" for t in s.L.targets(i) for k in s.M.funcs[t].calls()):
                r[i.i] = ("all", s.field(f, i.args[0]))
        return r
    def joined_on_all(s, f, c, m, stop=None):
        """every path from entry to return joins member m (or shows there is nothing to join)"""
        s.joins_member.pop(f.name, None)
        jc = s.joincalls(f)
        if not any(v == m or v == "*" or v == ("all", m) for v in jc.values()): return False
        typ = next((x["type"] for x in s.M.structs[c]["members"] if x["name"] == m), "")
        many = bool(re.search(r"(vector|deque|list|map|array)<|\[\d+\]", typ))
        loops = {}
        if many:
            f._joiners = None
            loops = s.loop_edges(f, m, jc)
        st = [(0, 0)]; seen = set()
        while st:
            b, idx = st.pop()
            if (b, idx) in seen: continue
            seen.add((b, idx)); blk = f.blocks[b]; stopb = False
            for i in blk.insts[idx:]:
                if stop is not None and i.i == stop: return False
                if i.op == "ret": return False
                if i.i in jc and (jc[i.i] in ("*", ("all", m)) or (jc[i.i] == m and not many)): stopb = True; break
            if stopb: continue
            t = blk.term
            for z in blk.succ:
                if t.op == "invoke" and z == t.d["unw"]: continue
                if (b, z) in loops: continue
                if t.op == "br" and len(t.d["succ"]) == 2 and s.excused(f, c, m, t, z): continue
                st.append((z, 0))
        return True
    def loop_edges(s, f, m, jc):
        res = {}
        for h, body in f.loops().items():
            js = [i for b in body for i in f.blocks[b].insts if i.i in jc and jc[i.i] == m]
            exits = [(b, z) for b in body for z in f.blocks[b].succ if z not in body and f.blocks[b].term.op != "invoke"]
            if len(exits) != 1 or not js: continue
            if not any(threads.everyround(f, h, body, j) for j in js): continue
            xb, xz = exits[0]
            if not f.blocks[xb].term.ops: continue
            src = threads.whole(f, f.inst(f.blocks[xb].term.ops[0]), body, h)
            if src and any(s.field(f, o) == m for o in src): res[(xb, xz)] = m
        return res
    def excused(s, f, c, m, t, z):
        """taking this branch shows that member m holds no thread to join"""
        x = f.inst(t.ops[0])
        taken = z == t.d["succ"][0]
        pol = taken
        for _ in range(8):
            if x is None: return False
            if x.op == "xor" and x.ops[1][0] == "c": pol = not pol; x = f.inst(x.ops[0]); continue
            if x.op in ("zext", "trunc", "freeze"): x = f.inst(x.ops[0]); continue
            if x.op == "icmp" and x.ops[1][0] in ("c", "n") and (x.ops[1][0] == "n" or x.ops[1][1] == "0"):
                if x.d["pred"] == "eq": pol = not pol
                elif x.d["pred"] != "ne": return False
                x = f.inst(x.ops[0]); continue
            break
        if x is None: return False
        if x.is_call():
            ln = last(x.dem).split("[")[0]
            if ln in ("joinable", "has_value", "operator bool", "get") and s.field(f, x.args[0]) == m: return not pol
            if ln == "empty" and s.field(f, x.args[0]) == m: return pol
            if short(x.dem).startswith(("std::atomic", "std::__atomic_base")):
                fl = s.field(f, x.args[0])
                return fl is not None and s.joinflag(c, m, fl) and pol
            return False
        if x.op == "load":
            fl = s.field(f, x.ops[0])
            if fl == m: return not pol
            return fl is not None and s.joinflag(c, m, fl) and pol
        return False
    def flagstores(s, c, fl):
        for f in s.M.funcs.values():
            for i in f.all():
                if i.op == "store" and (c + "::" + fl) in f.fields_of(i.ops[1]): yield f, i, i.ops[0]
                elif i.is_call() and i.args and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::")) and last(i.dem).split("[")[0] in ("operator=", "store") and (c + "::" + fl) in f.fields_of(i.args[0]): yield f, i, i.args[1]
    def joinflag(s, c, m, fl):
        """the bool member fl is set only by methods that join m: it records the join"""
        typ = next((x["type"] for x in s.M.structs[c]["members"] if x["name"] == fl), "")
        if "bool" not in typ: return False
        sts = [(f, i) for f, i, v in s.flagstores(c, fl) if not (v[0] == "c" and v[1] == "0")]
        if not sts: return False
        return all(any(k == m for k in s.joincalls(f).values()) for f, i in sts)

def scope(P):
    """functions to explore as owners of threads, and the helpers and lambdas to analyse inside them"""
    M = P.M; sites = []
    touch = set(); starters = set()
    for f in M.funcs.values():
        c = P.ow.method(f)
        if c in P.holds: continue
        for i in f.calls():
            t = None
            if P.L.is_thread_start(i): t = "start"
            elif short(i.dem) in ("std::thread::join", "std::thread::detach", "std::thread::joinable", "std::thread::operator="): t = "touch"
            elif i.callee in M.funcs and P.ow.method(M.funcs[i.callee]) in P.holds:
                g = M.funcs[i.callee]; ln = last(g.dem)
                if Live.starts_member(_S(P), i.callee): t = "start"
                elif i.callee in P.ow.joining or isdtor(g.dem): t = "touch"
                elif ln == P.ow.method(g): t = "touch"
            elif i.callee and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::")) and last(i.dem).split("[")[0] in ("operator=", "store") and i.args and (i.args[0][0] == "a" or c is None and any(o[0] == "a" for o in objs(f, i.args[0]))): t = "touch"
            elif i.callee in ("_ZdlPv", "_ZdlPvm") and c is None and any(o[0] == "a" for o in objs(f, i.args[0])): t = "touch"
            elif i.callee is None and c is None and i.args and i.args[0][0] == "a" : t = "touch"
            if t: touch.add(f.name)
            if t == "start":
                starters.add(f.name)
                if P.L.is_thread_start(i): sites.append((P.tu, f, i))
    inl = {n for n in touch if not M.funcs[n].dem.startswith("std::")} | {n for n, f in M.funcs.items() if ("lambda" in f.dem or "$_" in f.dem or "operator()" in f.dem)}
    # helpers between a starter and the code that owns what it starts
    ch = True
    up = P.O.callers()
    roots = set(starters)
    work = list(starters)
    while work:
        n = work.pop()
        if not owns_for(M.funcs[n]): continue
        cs = [g for g, j in up.get(n, ()) if P.ow.method(g) not in P.holds]
        if cs: roots.discard(n); inl.add(n)      # analysed inside its callers
        for g in cs:
            if g.name not in roots: roots.add(g.name); work.append(g.name)
    roots = {n for n in roots if not ("lambda" in M.funcs[n].dem or "operator()" in M.funcs[n].dem)}
    return roots, inl, sites

def explore(P, tu, roots, inl):
    """exploration of every function in roots, not yet run"""
    if not roots: return
    V = ir.view_if(tu, lambda file, m, d: m in roots, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    for f in V.funcs.values():
        if f.name in roots: yield Live(f, P.O, P.ow, P.th, P.C.roots(f.name) <= P.C.entries, flagwriters(P, inl))

def unit(R, tu, covered, sites):
    R.saw("units", tu)
    P = Prog(tu); M = P.M
    classes(R, P)
    roots, inl, st = scope(P)
    sites += st
    if tu == "hw_proof": detached(R, P)
    if tu == "hw_client": teardown(R, P)
    for X in explore(P, tu, roots, inl):
        f = X.f
        own = [i for i in X.starts if any(o[0] == "v" for o in X.eff[i.i][1])]
        for i in f.calls():
            if P.L.is_thread_start(i) and i.i in X.eff and any(o[0] == "v" for o in X.eff[i.i][1]) and i.loc: covered.add(tuple(i.loc[:2]))
        if not own: continue
        X.run()
        R.saw("thread-owning functions", "%s (%d states)" % (f.short, X.nstates))
        hw = "/hw/" in (f.file or "")
        bad = [b for b in X.bad if not (b[1] == "detach" and hw and not any(X.isalloca(o) for t in X.eff[b[0].i][1] for o in X.refs.get(t, ())))]
        for i, kind, text, key in bad:
            R.bad("S04.use" if kind == "use" else "S04.exit", i.where(), "%s: %s" % (f.short, text), "%s %s" % (f.short, key))
        if not any(b[1] != "use" for b in bad): R.ok("S04.exit", "%s: %d thread starts, %d exits, %d states: every thread joined" % (f.short, len(own), getattr(X, "exits", 0), X.nstates))
        if not any(b[1] == "use" for b in bad): R.ok("S04.use", "%s: nothing its threads refer to (%s) is destroyed while they run" % (f.short, ", ".join(sorted({X.oname(o) for r in X.refs.values() for o in r if o[0] == "v"}))[:150]))
    return P

def flagwriters(P, inl):
    """functions that write an atomic flag handed to them by reference"""
    r = set()
    for f in P.M.funcs.values():
        if f.name in inl: continue
        for i in f.all():
            w = i.is_call() and i.args and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::")) and last(i.dem).split("[")[0] in ("operator=", "store", "exchange", "compare_exchange_strong", "compare_exchange_weak", "operator|=", "fetch_or") and "bool" in i.dem
            if not w: continue
            b, off = f.base_off(i.args[0]); x = f.inst(b)
            if b[0] == "a" and not P.ow.method(f) or x is not None and x.op == "load" and off == 0 and "vector" not in str(x): r.add(f.name)
    return r

class _S:
    """just enough of Live for starts_member"""
    def __init__(s, P): s.O = P.O; s.ow = P.ow
    def starts_member(s, n): return Live.starts_member(s, n)
    def localonly(s, f, i): return Live.localonly(s, f, i)

def owns_for(f):
    """starts threads only into objects of its caller"""
    if any(i.op == "alloca" and any(THREAD_T.search(t) and not t.endswith("&") for t in f.vtypes.get(("v", i.i), ())) for i in f.all()): return False
    for i in f.calls():
        if i.args and ("thread" in i.dem) and f.base_off(i.args[0])[0][0] == "a": return True
        if i.args and "thread" in i.dem:
            x = f.inst(f.base_off(i.args[0])[0])
            if x is not None and x.op == "load":
                y = f.inst(f.base_off(x.ops[0])[0])
                if y is not None and y.op == "alloca" and any(z.ops[0][0] == "a" for z in threads.stores_to(f).get(("v", y.i), ())): return True
    return False

def classes(R, P):
    M = P.M
    for c in sorted(P.holds):
        ms = [f for f in M.funcs.values() if P.ow.method(f) == c]
        if not ms: continue
        starts = [f for f in ms if Live.starts_member(_S(P), f.name)]
        if not starts and not any(P.L.is_thread_start(i) for f in ms for i in f.calls()): continue
        R.saw("classes holding threads", "%s: %s" % (c, ", ".join(sorted(P.holds[c]))))
        dts = [f for f in ms if isdtor(f.dem) and f.name in P.ow.joining]
        stops = [f for f in ms if not isdtor(f.dem) and f.name in P.ow.joining]
        if dts: R.ok("S04.class", "%s::~%s joins %s" % (c, c, ", ".join(sorted(P.holds[c]))))
        elif stops and erased(R, P, c): pass
        elif stops: R.ok("S04.class", "%s: %s joins %s; its users must call it" % (c, last(stops[0].dem), ", ".join(sorted(P.holds[c]))))
        else:
            f = next((f for f in ms if isdtor(f.dem)), starts[0] if starts else ms[0])
            miss = sorted(m for m in P.holds[c] if not any(P.joined_on_all(g, c, m) for g in ms))
            R.bad("S04.class", "%s:%d" % (ir.rel(f.file), f.line), "no method of %s joins %s on every path on which it may be running" % (c, ", ".join(miss) or "all its threads at once"), "%s unjoined" % c)
        for f in dts + stops:
            jc = P.joincalls(f); okk = True
            for i in f.all():
                if not i.is_call() or i.i in jc: continue
                if not (isdtor(i.dem) or i.callee in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free")): continue
                a = i.args[0]
                if not from_this(f, a): continue
                # every path to here must have joined everything
                for m in P.holds[c]:
                    if fieldname(P, f, a) == m and not i.callee.startswith("_Zd"): pass
                    if not P_before(P, f, c, m, i):
                        R.bad("S04.order", i.where(), "%s::%s releases %s before it joined %s" % (c, last(f.dem), fieldname(P, f, a) or "a member", m), "%s %s releases early" % (c, last(f.dem))); okk = False
            # threads that can start what a later loop stops
            for m in P.holds[c]:
                for k in P.holds[c]:
                    if k == m or not starts_into(P, c, m, k): continue
                    for j, v in jc.items():
                        if v == k and not P_before(P, f, c, m, f.insts[j]):
                            R.bad("S04.order", f.insts[j].where(), "%s::%s stops %s while %s, which can still add to it, has not been joined" % (c, last(f.dem), k, m), "%s %s order" % (c, last(f.dem))); okk = False
            if okk: R.ok("S04.order", "%s::%s" % (c, last(f.dem)))
        for m in P.holds[c]:
            for x in M.structs[c]["members"]:
                if "bool" in x["type"] and not x["type"].startswith("std::vector") and P.joinflag(c, m, x["name"]):
                    # used as a join record only if a joining method skips on it
                    if not any(skips_on(P, f, c, m, x["name"]) for f in dts + stops): continue
                    for f, i, v in P.flagstores(c, x["name"]):
                        if v[0] == "c" and v[1] == "0": continue
                        R.check("S04.flag", P_before(P, f, c, m, i), i.where(), "%s::%s is set by %s before %s was joined" % (c, x["name"], short(f.dem), m), inst="%s sets %s after joining %s" % (short(f.dem), x["name"], m), key="%s::%s" % (c, x["name"]))

def erased(R, P, c):
    """objects of c, whose destructor does not join, are dropped from a container of another class"""
    M = P.M; bad = False
    def up(n):
        r = {n}
        for x in M.structs.get(n, {"members": []})["members"]:
            if x["name"] == "<base>": r |= up(x["type"])
        return r
    ups = up(c)
    for p, ms in P.holds.items():
        if p in ups: continue
        for x in M.structs[p]["members"]:
            if x["name"] not in ms or not any(re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(u), x["type"]) for u in ups): continue
            for f in M.funcs.values():
                if P.ow.method(f) != p: continue
                for i in f.calls():
                    if last(i.dem).split("[")[0] in ("erase", "clear", "pop_back", "pop_front", "reset", "resize", "operator=", "release") and i.args and P.field(f, i.args[0]) == x["name"] and ("vector" in i.dem or "_ptr" in i.dem or "deque" in i.dem or "list" in i.dem or "map" in i.dem or "optional" in i.dem):
                        R.bad("S04.class", i.where(), "%s drops a %s whose destructor does not always join its thread" % (short(f.dem), c), "%s dropped unjoined" % c); bad = True
    return bad

def P_before(P, f, c, m, i): return joined_before(P, f, c, m, i)
def joined_before(P, f, c, m, i):
    jc = P.joincalls(f)
    typ = next((x["type"] for x in P.M.structs[c]["members"] if x["name"] == m), "")
    many = bool(re.search(r"(vector|deque|list|map|array)<|\[\d+\]", typ))
    loops = P.loop_edges(f, m, jc) if many else {}
    st = [0]; seen = set()
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); blk = f.blocks[b]; stop = False
        for x in blk.insts:
            if x.i == i.i: return False
            if x.i in jc and (jc[x.i] in ("*", ("all", m)) or jc[x.i] == m and not many): stop = True; break
        if stop: continue
        t = blk.term
        for z in blk.succ:
            if t.op == "invoke" and z == t.d["unw"]: continue
            if (b, z) in loops: continue
            if t.op == "br" and len(t.d["succ"]) == 2 and P.excused(f, c, m, t, z): continue
            st.append(z)
    return True

def skips_on(P, f, c, m, fl):
    for b in f.blocks:
        t = b.term
        if t.op == "br" and len(t.d["succ"]) == 2:
            for z in b.succ:
                if P.excused(f, c, m, t, z):
                    x = t
                    st = [t.ops[0]]; seen = set()
                    while st:
                        v = st.pop(); x = f.inst(v)
                        if x is None or x.i in seen: continue
                        seen.add(x.i)
                        if x.op == "load" and P.field(f, x.ops[0]) == fl or x.is_call() and x.args and P.field(f, x.args[0]) == fl: return True
                        st += x.ops
    return False

def starts_into(P, c, m, k):
    """a thread held in member m can start threads held in member k"""
    bodies = set()
    for f in P.M.funcs.values():
        if P.ow.method(f) != c: continue
        for i in f.calls():
            if P.L.is_thread_start(i) and P.field(f, i.args[0]) == m: bodies |= P.L.thread_bodies(f, i)
    if not bodies: return False
    for n in P.C.reach(bodies):
        f = P.M.funcs.get(n)
        if f is None or P.ow.method(f) != c: continue
        for i in f.calls():
            if last(i.dem).split("[")[0] in ("emplace_back", "push_back", "insert", "emplace") and i.args and P.field(f, i.args[0]) == k: return True
    return False

def from_this(f, v):
    for _ in range(10):
        b, _o = f.base_off(v)
        if b == ("a", 0): return True
        i = f.inst(b)
        if i is None or i.op != "load": return False
        v = i.ops[0]
    return False

def fieldname(P, f, v):
    r = P.field(f, v)
    if r: return r
    b, ch = f.field_chain(v)
    if ch: return ch[0][1]
    i = f.inst(f.base_off(v)[0])
    if i is not None and i.op == "load":
        b, ch = f.field_chain(i.ops[0])
        if ch: return ch[0][1]
    return None

# ---- hardware proof threads
BUSY = "vdf_state::aux_threads_busy"
def busyop(f, i, want):
    """atomic change of the busy mask: 'set' (|=) or 'clear' (&=)"""
    if i.op == "atomicrmw" and BUSY in f.fields_of(i.ops[0]): return i.d.get("rmw", i.d.get("binop")) == ("or" if want == "set" else "and")
    if not i.is_call() or not i.args or BUSY not in f.fields_of(i.args[0]): return False
    ln = last(i.dem).split("[")[0]
    return ln in (("operator|=", "fetch_or", "operator+=", "fetch_add") if want == "set" else ("operator&=", "fetch_and", "operator-=", "fetch_sub", "operator^=", "fetch_xor"))

def detached(R, P):
    M = P.M; O = P.O
    dets = [(f, i) for f in M.funcs.values() for i in f.calls() if short(i.dem) == "std::thread::detach"]
    bodies = set()
    for f, d in dets:
        for i in f.calls():
            if P.L.is_thread_start(i) and f.base_off(i.args[0])[0] == f.base_off(d.args[0])[0]:
                bodies |= P.L.thread_bodies(f, i)
                setb = lambda g, x: busyop(g, x, "set")
                R.check("S04.detached", O.before(f, i, setb), i.where(), "%s starts a detached thread before it recorded it as busy: a stop request would not wait for it" % f.short, inst="%s records a thread as busy before starting it" % f.short, key="%s busy" % f.short)
                # the index tested, set and handed over are the same is not decided here
    clear = lambda g, x: busyop(g, x, "clear")
    for n in sorted(bodies):
        f = M.funcs[n]
        if "lambda" in f.dem:
            pass
        if n not in O.may(clear):
            R.bad("S04.detached", "%s:%d" % (ir.rel(f.file), f.line), "%s never reports that it has finished" % f.short, "%s noclear" % f.short); continue
        after(R, P, f, clear, set())

def after(R, P, f, clear, seen):
    if f.name in seen: return
    seen.add(f.name)
    O = P.O
    for i in f.all():
        if clear(f, i):
            x = O.reach_without(f, O.nxt(i), None, lambda g, y: touches(P, g, y, clear), exc=False)
            R.check("S04.detached", x is None, (x or i).where(), "%s still uses the VDF state after it reported being finished: it may already have been cleared" % f.short, inst="%s reports being finished last" % f.short, key="%s after clear" % f.short)
        elif i.is_call() and i.callee in P.M.funcs and i.callee in O.may(clear):
            after(R, P, P.M.funcs[i.callee], clear, seen)
            if i.callee in O.may(clear):
                x = O.reach_without(f, O.nxt(i), None, lambda g, y: touches(P, g, y, clear), exc=False)
                R.check("S04.detached", x is None, (x or i).where(), "%s still uses the VDF state after it reported being finished" % f.short, inst="%s does nothing with the VDF after the report" % f.short, key="%s after clear" % f.short)

def touches(P, f, i, clear):
    """uses memory reached through the state parameter"""
    if i.op in ("load", "store"):
        v = i.ops[0] if i.op == "load" else i.ops[1]
        return f.base_off(v)[0][0] in ("a",) or from_param(f, v)
    if i.is_call() and not (i.callee or "").startswith("llvm."):
        if isdtor(i.dem) and uses_state(P, f, i): return True
        return any(a[0] in ("a", "v") and (f.base_off(a)[0][0] == "a" and ptr_param(f, f.base_off(a)[0]) or from_param(f, a)) for a in i.args)
    return False
def ptr_param(f, b): return f.params[b[1]].get("ty") == "ptr"
def from_param(f, v, depth=0):
    b, _ = f.base_off(v); i = f.inst(b)
    if b and b[0] == "a": return ptr_param(f, b)
    if i is not None and i.op == "load" and depth < 6:
        a = f.base_off(i.ops[0])[0]; x = f.inst(a)
        if i.ty == "ptr": return from_param(f, i.ops[0], depth + 1)
        return False
    return False
def uses_state(P, f, i):
    """destructor of a local object that keeps a reference to the state"""
    t = P.O.L.targets(i)
    for n in t:
        g = P.M.funcs[n]
        if any(k.op == "load" and any(x.startswith("vdf_state::") for x in g.fields_of(k.ops[0])) for k in g.all()): return True
    return False

def teardown(R, P):
    M = P.M; O = P.O
    H = Ctx("hw_proof")
    waiters = {n for n, f in H.M.funcs.items() if busyloop(f)}
    if not waiters:
        R.bad("S04.teardown", "src/hw/hw_proof.cpp", "nothing waits until no hardware proof thread is busy", "no wait"); return
    OH = Order(H)
    iswait = lambda f, i: i.is_call() and i.callee in waiters
    must = {short(H.M.funcs[n].dem) for n in OH.must(iswait)} | {short(H.M.funcs[n].dem) for n in waiters}
    ev = lambda f, i: i.is_call() and bool(i.callee) and short(i.dem) in must
    k = 0
    for f in M.funcs.values():
        for i in f.calls():
            if short(i.dem) == "clear_vdf_state":
                k += 1
                R.check("S04.teardown", O.before_up(f, i, ev), i.where(), "%s clears the VDF state without waiting for the threads that use it" % f.short, inst="%s waits for the proof threads before clear_vdf_state" % f.short, key="%s clear" % f.short)
    if not k: raise Broken("clear_vdf_state is never called")

def busyloop(f):
    """every normal return comes after a loop that is left only when no thread is busy"""
    ok = set()
    for h, body in f.loops().items():
        for b in body:
            t = f.blocks[b].term
            if t.op != "br" or len(t.d["succ"]) != 2: continue
            out = [z for z in t.d["succ"] if z not in body]
            if len(out) != 1: continue
            x = f.inst(t.ops[0]); pol = out[0] == t.d["succ"][0]
            for _ in range(6):
                if x is None: break
                if x.op == "xor" and x.ops[1][0] == "c": pol = not pol; x = f.inst(x.ops[0]); continue
                if x.op in ("zext", "trunc", "freeze"): x = f.inst(x.ops[0]); continue
                if x.op == "icmp" and x.ops[1][0] == "c" and x.ops[1][1] == "0":
                    if x.d["pred"] == "eq": pol = not pol
                    elif x.d["pred"] not in ("ne", "ugt"): x = None; break
                    x = f.inst(x.ops[0]); continue
                break
            if x is None: continue
            a = x.args[0] if x.is_call() and x.args else x.ops[0] if x.op == "load" else None
            if a is None or BUSY not in f.fields_of(a) or x.bb not in body: continue
            if pol: continue          # left while still busy
            ok.add((b, out[0]))
    if not ok: return False
    # reach a return without taking such an exit
    st = [0]; seen = set()
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if f.blocks[b].term.op == "ret": return False
        for z in f.blocks[b].succ:
            if (b, z) in ok: continue
            if f.blocks[b].term.op == "invoke" and z == f.blocks[b].term.d["unw"]: continue
            st.append(z)
    return True
