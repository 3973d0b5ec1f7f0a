"""P01: lockset analysis of the state shared between threads."""
import re
from collections import Counter
from .. import ir, locks
from ..ir import Broken, short

# field (or global), class whose methods are judged (None = everywhere), kind
#   all     every access under the field's lock
#   owner   the thread that alone writes the field may read it without the lock
#   write   every write under the lock (reads are atomic)
#   grow    every change of the container's extent, and every access from a thread, under the lock
TABLE = {
    "vdf_client": [
        ("ProverManager::pending_iters", None, "all"),
        ("ProverManager::pending_iters_last_sg", None, "all"),
        ("ProverManager::done_segments", None, "all"),
        ("ProverManager::max_proving_iteration", None, "owner"),
        ("FastStorage::pending_intermediates", None, "all"),
        ("new_event", None, "all"),
        ("InterruptableProver::is_paused", None, "owner"),
        ("WesolowskiCallback::forms", "TwoWesolowskiCallback", "all"),
        ("TwoWesolowskiCallback::transition_state", None, "write"),
        ("TwoWesolowskiCallback::kl", None, "write"),
    ],
    "hw_proof": [
        ("vdf_state::done_proofs", None, "all"),
        ("vdf_state::valid_values", None, "all"),
        ("vdf_state::values", None, "all"),
        ("vdf_state::proofs", None, "grow"),
    ],
}
FLOOR = {"vdf_client": 6, "hw_proof": 3}
ATOMIC_W = re.compile(r"std::(atomic|__atomic_base)<.*>::(store|exchange|operator=|operator\+\+|operator--|operator\+=|operator-=|operator&=|operator\|=|fetch_\w+|compare_exchange_\w+)\(")
GROW = ("push_back", "emplace_back", "resize", "erase", "clear", "insert", "pop_back", "reserve", "assign", "operator=", "swap", "emplace", "shrink_to_fit")
READ_CALLS = ("size", "empty", "begin", "end", "rbegin", "rend", "back", "front", "find", "count", "at", "operator[]", "data", "capacity", "operator*", "operator->", "get", "load", "cbegin", "cend", "lower_bound", "upper_bound", "operator bool", "operator int", "contains")

def run(R):
    R.rule("P01.locked", "every access to a shared field (outside construction and destruction of its owner) is made while one common mutex is held, on every path", floor=30)
    R.rule("P01.owner-read", "an access without the lock is a read, made on the only thread that writes the field", floor=0)
    R.rule("P01.escape", "no function hands out a pointer or reference into lock-protected state", floor=0)
    for tu in ("vdf_client", "hw_proof"): one(R, tu)
    R.assume_("objects are constructed before the threads that share them start and destroyed after those threads were joined (decided by S04)")
    R.assume_("two objects of one class are not told apart: locking the mutex of another instance counts as locking it")

def isctor(f):
    if "lambda" in f.dem: return False
    p = short(f.dem).split("::")
    return len(p) > 1 and (p[-1] == p[-2] or p[-1].startswith("~"))

class Ctx:
    def __init__(s, tu):
        s.M = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
        s.L = locks.Locks(s.M)
        s.callers = {}
        for f in s.M.funcs.values():
            for i in f.calls():
                for t in s.L.targets(i): s.callers.setdefault(t, set()).add(f.name)
        s.entries = {n for n in s.L.entries if not isctor(s.M.funcs[n])}
        # run on construction / destruction only
        base = {n for n, f in s.M.funcs.items() if isctor(f) or re.match(r"(init|clear)_", short(f.dem)) or n.startswith("_GLOBAL__") or "__cxx_global_var_init" in f.dem}
        base -= s.entries
        ex = set(base); ch = True
        while ch:
            ch = False
            for n in s.M.funcs:
                if n not in ex and n not in s.entries and n.startswith("_Z") and n not in virtuals(s) and s.callers.get(n) and s.callers[n] <= ex:
                    ex.add(n); ch = True
        s.exempt = ex
        s.onthread = s.reach(s.entries)
    def reach(s, roots):
        seen = set(roots); st = list(roots)
        succ = {}
        for t, cs in s.callers.items():
            for c in cs: succ.setdefault(c, set()).add(t)
        while st:
            for z in succ.get(st.pop(), ()):
                if z not in seen: seen.add(z); st.append(z)
        return seen
    def roots(s, n):
        seen = {n}; st = [n]; r = set()
        while st:
            x = st.pop()
            if x in s.entries or not s.callers.get(x): r.add(x)
            for c in s.callers.get(x, ()):
                if c not in seen: seen.add(c); st.append(c)
        return r

def virtuals(s):
    if not hasattr(s, "_v"):
        s._v = {z for g in s.M.globals if g.startswith("_ZTV") for z in s.M.edges.get(g, ()) if z in s.M.funcs}
    return s._v

def kind_of(i, k):
    """r or w of an access"""
    if k != "c": return "w" if "w" in k else "r"
    sh = short(i.dem)
    if sh.startswith(("std::atomic", "std::__atomic_base")):
        return "w" if ATOMIC_W.search(i.dem) and not re.search(r"::(load|operator \w+)\(", i.dem) else "r"
    if sh.startswith("std::") and sh.split("::")[-1].split("[abi")[0] in READ_CALLS: return "r"
    return "w"

def one(R, tu):
    C = Ctx(tu); M = C.M; L = C.L
    R.saw("units", tu)
    for n in C.entries: R.saw("thread entries", short(M.funcs[n].dem))
    found = 0
    for field, cls, mode in TABLE[tu]:
        acc = []
        for f in M.funcs.values():
            if f.name in C.exempt: continue
            if cls and not short(f.dem).startswith(cls + "::"): continue
            for i, k, d in locks.accesses(f, lambda names, f: field in names):
                if i.is_call() and "mutex" in short(i.dem): continue
                acc.append((f, i, kind_of(i, k), d, L.held(f, i)))
        if not acc: continue
        cnt = Counter(x for a in acc for x in a[4])
        found += 1
        if mode == "write": acc = [a for a in acc if a[2] == "w"]
        if mode == "grow":
            acc = [a for a in acc if a[0].name in C.onthread and not serial(C, a[0]) or a[1].is_call() and short(a[1].dem).split("::")[-1].split("[abi")[0] in GROW]
            acc = [a for a in acc if not (a[1].is_call() and short(a[1].dem).split("::")[-1] == "operator=" and a[3])]
        cnt = Counter(x for a in acc for x in a[4])
        if not acc: continue
        # the protecting lock: the one most accesses hold (ties: the mutex declared in the same class)
        owner = field.rsplit("::", 1)[0]
        lock = max(cnt, key=lambda x: (cnt[x], x.startswith(owner + "::"), x)) if cnt else None
        R.saw("fields", "%s protected by %s" % (field, lock))
        for f, i, k, d, h in acc:
            where = i.where(); fn = short(f.dem)
            if lock in h:
                R.ok("P01.locked", "%s %s %s of %s under %s" % (where, fn, {"r": "read", "w": "write"}[k], field, lock)); continue
            if mode == "owner" and k == "r" and owner_ok(C, f, acc):
                R.ok("P01.owner-read", "%s %s reads %s on the thread that writes it" % (where, fn, field)); continue
            R.bad("P01.locked", where, "%s %s %s without holding %s%s" % (fn, {"r": "reads", "w": "writes"}[k], field, lock or "any mutex", " (holds %s)" % ", ".join(sorted(h)) if h else ""),
                  "%s %s %s" % (fn, k, field))
        if mode == "all" and field != "vdf_state::values": escapes(R, C, field, cls, lock)
    if found < FLOOR[tu]: raise Broken("only %d of the shared fields of %s found" % (found, tu))

def serial(C, f):
    """runs on threads only because a thread-start site is reached from a thread"""
    return False

def owner_ok(C, f, acc):
    rf = C.roots(f.name)
    if len(rf) != 1 or not rf <= C.entries: return False
    e = next(iter(rf)); sites = C.L.entries[e]
    if len(sites) != 1: return False
    for g, i, k, d, h in acc:
        if k != "w": continue
        if C.roots(g.name) <= rf: continue
        # the stopping side: writes after the thread was joined
        if not stops_after_join(C, g, sites[0]): return False
    return True

def stops_after_join(C, g, site):
    """every caller chain of g goes through a call that follows a join in the same function"""
    seen = set(); st = [g.name]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        cs = C.callers.get(n, set())
        if not cs and n not in virtuals(C): return False
        for c in cs:
            f = C.M.funcs[c]
            if c in C.exempt: continue
            joins = [j for j in f.calls() if short(j.dem) == "std::thread::join"]
            ok = False
            for i in f.calls():
                if n in C.L.targets(i):
                    ok = any(after(f, j, i) for j in joins)
                    if not ok: break
            if not ok: st.append(c)
    return True

def after(f, j, i):
    """i is reachable from j but j is not reachable from i"""
    def reach(a):
        seen = set(); st = [(a.d["norm"],)] if a.op == "invoke" else [(z,) for z in f.blocks[a.bb].succ]
        st = [x[0] for x in st]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += f.blocks[b].succ
        return seen
    if i.bb == j.bb: return j.i < i.i
    return i.bb in reach(j) and j.bb not in reach(i)

def escapes(R, C, field, cls, lock):
    M = C.M
    for f in M.funcs.values():
        if f.name in C.exempt or f.ret == "void": continue
        if cls and not short(f.dem).startswith(cls + "::"): continue
        der = None
        for i in f.all():
            if i.op != "ret" or not i.ops: continue
            if der is None: der = locks.derived(f, lambda names, f: field in names)
            if der and (i.ops[0] in der or direct(f, i.ops[0], field)):
                R.bad("P01.escape", i.where(), "%s returns a pointer into %s, which is protected by %s" % (short(f.dem), field, lock), "%s returns %s" % (short(f.dem), field))
        if der: R.ok("P01.escape", "%s keeps its references into %s" % (short(f.dem), field))

def direct(f, v, field):
    b, ch = f.field_chain(v)
    return any(c + "::" + fl == field for c, fl, t in ch)
