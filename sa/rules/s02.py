"""S02: a proving thread that was told to stop sends nothing, and the stop notice is sent after all of them have ended."""
import re
from .. import ir, threads
from ..ir import Broken, short
from ..threads import Live, objs, last, stores_to
from .s04 import Prog, scope, explore

WRITE = re.compile(r"(^|\s)boost::asio::(write|async_write|write_at)<|::basic_(stream_)?socket<.*::(send|async_send|write_some|async_write_some)\b")
def is_write(f, i): return i.is_call() and bool(i.callee) and bool(WRITE.search(i.dem))
BLOCKS = re.compile(r"std::condition_variable(_any)?::wait|std::this_thread::sleep_|std::thread::join|std::future<.*>::(get|wait)")
def blocks(f, i): return i.is_call() and bool(i.callee) and bool(BLOCKS.search(i.dem) or i.callee.startswith("__gmpz_"))

def run(R):
    R.rule("S02.drop", "a proving thread whose stop signal is set when the computation returns reaches no write to the socket", floor=3)
    R.rule("S02.told", "every proving thread is handed a stop signal of its session", floor=3)
    R.rule("S02.flag", "the stop signals of all running proving threads are set before the session waits for any thread or stops what the proving threads compute with", floor=6)
    R.rule("S02.last", "what the session itself sends while proving threads may exist is sent after all of them have been joined", floor=3)
    R.rule("S02.end", "nothing is sent after the stop notice", floor=3)
    P = Prog("vdf_client"); M = P.M; O = P.O
    R.saw("units", "vdf_client")
    writers = {n for n in P.L.entries if n in O.may(is_write)}
    if not writers: raise Broken("no thread entry writes to a socket")
    roots, inl, sites = scope(P)
    for n in sorted(writers): R.saw("proving threads", short(M.funcs[n].dem))
    drop(R, P, writers)
    seen = 0
    for X in explore(P, "vdf_client", roots, inl):
        f = X.f
        ws = {}
        for i in X.starts:
            b = P.L.thread_bodies(f, i)
            if b & writers: ws[i.i] = X.eff[i.i][1]
        if not ws: continue
        seen += 1
        wobj = set()
        for o in ws.values(): wobj |= o
        ch = True
        while ch:              # containers they are moved to
            ch = False
            for e in X.eff.values():
                if e[0] == "move" and e[2] & wobj and not e[1] <= wobj: wobj |= e[1]; ch = True
        flags = {}
        for w in wobj:
            flags[w] = {o for o in X.refs.get(w, ()) if isflag(f, o)}
        for k, o in ws.items():
            i = f.insts[k]
            fl = {x for x in X.referents(i, X.eff[k]) if isflag(f, x)}
            R.check("S02.told", bool(fl), i.where(), "%s starts a proving thread without a stop signal" % f.short, inst="%s: %s" % (f.short, ", ".join(X.oname(x) for x in fl)), key="%s told" % f.short)
        X.setall = setloops(f, X)
        early = {}; joins = set()
        def onjoin(i, live, env):
            lw = live & wobj
            if not lw: return
            joins.add(i.i)
            for w in lw:
                if flags[w] and not all(env.get(x) == 1 for x in flags[w]): early.setdefault(i.i, set()).add(w)
        X.onjoin = onjoin
        X.run()
        R.saw("sessions", "%s (%d states)" % (f.short, X.nstates))
        for k in sorted(joins):
            i = f.insts[k]
            R.check("S02.flag", k not in early, i.where(), "%s: %s happens before the stop signal of every running proving thread (%s) is set: a proof can still be sent after the stop request" % (f.short, last(i.dem), ", ".join(X.name(o) for o in early.get(k, ()))),
                    inst="%s: stop signals set before %s" % (f.short, last(i.dem)), key="%s %s before flag" % (f.short, last(i.dem)))
        # what this function sends itself
        n = 0
        for i in f.calls():
            if not (is_write(f, i) or P.L.targets(i) & O.may(is_write)) or P.L.is_thread_start(i): continue
            sts = X.states.get(i.i)
            if not sts: continue
            n += 1
            lv = {o for live in sts for o in live & wobj}
            R.check("S02.last", not lv, i.where(), "%s sends (%s) while %s may still be sending" % (f.short, last(i.dem), ", ".join(X.name(o) for o in lv)), inst="%s: %s with no proving thread running" % (f.short, last(i.dem)), key="%s %s early" % (f.short, last(i.dem)))
        if not n: raise Broken("%s sends nothing itself" % f.short)
    if not seen: raise Broken("no session starts proving threads")
    ends(R, P, writers)
    R.assume_("a thread that passed its last stop test before the stop request has started sending")

def ftypes(f, o): return f.vtypes.get(o, ())
def isflag(f, o):
    """an atomic bool, or a container of them"""
    i = f.inst(o)
    if i is None: return False
    if any(re.search(r"std::atomic<bool>|std::atomic_bool|atomic_flag", t) for t in ftypes(f, o)): return True
    return any(k.is_call() and re.search(r"std::atomic<bool>::atomic\(|std::(deque|vector|list|array)<std::atomic<bool>", k.dem) and k.args and f.base_off(k.args[0])[0] == o for k in f.users.get(o, ()))

def setloops(f, X):
    """exit edges of loops that set every element of a container of flags"""
    res = {}
    for h, body in f.loops().items():
        for b in body:
            for i in f.blocks[b].insts:
                if not (i.is_call() and i.args and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::")) and last(i.dem).split("[")[0] in ("operator=", "store", "exchange") and i.args[1][0] == "c" and i.args[1][1] in ("1", "-1")): continue
                cont = threads.expand(f, objs(f, i.args[0]), objs)
                cs = {o for o in cont if isflag(f, o)}
                if not cs: continue
                exits = [(x, z) for x in body for z in f.blocks[x].succ if z not in body and f.blocks[x].term.op != "invoke"]
                if len(exits) != 1 or not threads.everyround(f, h, body, i): continue
                xb, xz = exits[0]
                if not f.blocks[xb].term.ops: continue
                src = threads.whole(f, f.inst(f.blocks[xb].term.ops[0]), body, h)
                if not src: continue
                so = set()
                for o in src: so |= threads.expand(f, objs(f, o), objs)
                ok = {c for c in cs if c in so or any(c in X.refs.get(o, ()) for o in so)}
                if ok: res[(xb, xz)] = frozenset(ok)
    return res

def stopload(f, i):
    """a load of the stop signal handed to the thread"""
    if i.op == "load" and i.d.get("atomic"): v = i.ops[0]
    elif i.is_call() and i.args and short(i.dem).startswith(("std::atomic::", "std::__atomic_base::", "std::atomic_flag::")) and re.search(r"::(load|operator (bool|std::atomic<bool>::value_type|__int_type)|test)\b", i.dem) and "bool" in i.dem or i.is_call() and i.args and "std::atomic<bool>::" in i.dem and re.search(r"::(load|operator bool)\b", i.dem): v = i.args[0]
    else: return False
    b, ch = f.field_chain(v)
    return not [c for c in ch if not c[1].startswith("_M_") and c[0] != "std::atomic" and not c[0].startswith(("std::", "(anon", "class.anon", "(lambda"))]

def drop(R, P, writers):
    M = P.M; O = P.O
    mw = O.may(is_write); mb = O.may(blocks)
    inl = {n for n in mw if n not in writers}
    # helpers that only look at the signal
    for n, f in M.funcs.items():
        if n not in mb and n not in writers and any(stopload(f, i) for i in f.all()): inl.add(n)
    V = ir.view_if("vdf_client", lambda file, m, d: m in writers, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(writers):
        f = V.funcs.get(n)
        if f is None: raise Broken("no view of " + n)
        prod = {i.i for i in f.calls() if P.L.targets(i) & mb or blocks(f, i)}
        if not prod: raise Broken("%s computes nothing" % f.short)
        w = reach(f, prod)
        R.check("S02.drop", w is None, (w or f.blocks[0].insts[0]).where(), "%s sends its result although the stop signal was set when the computation returned" % f.short, inst="%s: %d computations, no write reached once stopped" % (f.short, len(prod)), key="%s sends after stop" % f.short)

def reach(f, prod):
    """a write reached although the stop signal is set when the last computation returns"""
    st = [(0, None, 0, frozenset())]; seen = set(st)
    allo = {("v", i.i) for i in f.all() if i.op == "alloca"}
    while st:
        b, pred, ph, env = st.pop(); env = dict(env); blk = f.blocks[b]; nxt = []
        def known(v):
            if v[0] == "c": return int(v[1]) & 1 if v[2] == 1 else (1 if int(v[1]) else 0)
            return env.get(v)
        def push(z, p, e):
            s = (z, b, p, frozenset(e.items()))
            if s not in seen: seen.add(s); st.append(s)
        for i in blk.insts:
            if i.op != "phi": break
            k = next((known(v) for v, pb in f.phi_inc(i) if pb == pred), None)
            env.pop(("v", i.i), None)
            if k is not None: env[("v", i.i)] = k
        live = [(ph, env)]
        for i in blk.insts:
            if i.op == "phi": continue
            nl = []
            for p, e in live:
                v = ("v", i.i); e.pop(v, None)
                def kn(x):
                    if x[0] == "c": return int(x[1]) & 1 if x[2] == 1 else (1 if int(x[1]) else 0)
                    return e.get(x)
                if i.i in prod:
                    if p == 1: continue            # not the last one
                    nl.append((0, e)); nl.append((1, dict(e))); continue
                if p == 1 and is_write(f, i): return i
                if p == 1 and stopload(f, i): e[v] = 1
                elif i.op == "store" and i.ops[1] in allo:
                    k = kn(i.ops[0])
                    e.pop(i.ops[1], None)
                    if k is not None: e[i.ops[1]] = k
                elif i.op == "load" and i.ops[0] in e and i.ops[0] in allo: e[v] = e[i.ops[0]]
                elif i.op in ("zext", "sext", "trunc", "freeze") and kn(i.ops[0]) is not None: e[v] = kn(i.ops[0])
                elif i.op == "xor" and i.ops[1][0] == "c" and kn(i.ops[0]) is not None: e[v] = kn(i.ops[0]) ^ (int(i.ops[1][1]) & 1)
                elif i.op in ("and", "or"):
                    a, c = kn(i.ops[0]), kn(i.ops[1])
                    if i.op == "or" and 1 in (a, c): e[v] = 1
                    elif i.op == "and" and 0 in (a, c): e[v] = 0
                    elif None not in (a, c): e[v] = (a & c) if i.op == "and" else (a | c)
                elif i.op == "select":
                    c = kn(i.ops[0])
                    if c is not None and kn(i.ops[1] if c else i.ops[2]) is not None: e[v] = kn(i.ops[1] if c else i.ops[2])
                elif i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
                    a, c = kn(i.ops[0]), kn(i.ops[1])
                    if a is not None and c is not None: e[v] = int((a == c) == (i.d["pred"] == "eq"))
                nl.append((p, e))
            live = nl
        t = blk.term
        for p, e in live:
            full = e
            e = {k: w for k, w in e.items() if k in allo or any(u.bb != b or u.op == "phi" for u in f.users.get(k, ()))}
            if t.op == "br" and len(t.d["succ"]) == 2:
                c = t.ops[0]; k = (int(c[1]) & 1) if c[0] == "c" else full.get(c)
                for z, w in zip(t.d["succ"], (1, 0)):
                    if k is None or k == w: push(z, p, e)
            elif t.op == "invoke":
                push(t.d["norm"], p, e)
            else:
                for z in blk.succ: push(z, p, e)
    return None

def ends(R, P, writers):
    M = P.M; O = P.O
    start = lambda f, i: P.L.is_thread_start(i) and bool(P.L.thread_bodies(f, i) & writers)
    sends = lambda f, i: is_write(f, i) or start(f, i)
    sess = [f for f in M.funcs.values() if f.name not in P.C.onthread and any(start(f, i) for i in f.calls())]
    notice = set()
    for f in sess:
        for s in [i for i in f.calls() if start(f, i)]:
            for i in f.calls():
                t = P.L.targets(i) & O.may(is_write)
                if (is_write(f, i) or t) and not P.L.is_thread_start(i):
                    if O.reach_without(f, O.nxt(s, True), None, lambda g, y: y.i == i.i, exc=True) is not None: notice |= t or {i.callee}
    for f in sess:
        for i in f.calls():
            if i.callee not in notice or i.callee not in M.funcs: continue
            x = O.after(f, i, sends)
            R.check("S02.end", x is None, i.where(), "%s goes on sending after %s (%s)" % (f.short, last(i.dem), (x or i).where()), inst="%s: nothing sent or started after %s" % (f.short, last(i.dem)), key="%s after %s" % (f.short, last(i.dem)))
