"""P02: variables polled without a lock are atomic, and announcements come after what they announce."""
import re
from .. import ir, locks
from ..ir import Broken, short, clean_ty
from ..order import Order
from .p01 import Ctx, TABLE, kind_of, ATOMIC_W, isctor, stops_after_join

SCALAR = ("i1", "i8", "i16", "i32", "i64", "i128", "float", "double")
# announcing variables: what is read by other threads is valid once these say so
ANNOUNCE = {"WesolowskiCallback::iterations", "Prover::is_finished", "FastStorage::intermediates_stored", "ProverManager::vdf_iteration"}
# classes whose objects several threads use (besides those recognised by an own mutex, condition variable or atomic)
SHARED = {"WesolowskiCallback", "OneWesolowskiCallback", "TwoWesolowskiCallback", "FastAlgorithmCallback", "Prover", "ParallelProver", "OneWesolowskiProver", "TwoWesolowskiProver",
          "InterruptableProver", "HwProver", "ProverManager", "FastStorage", "vdf_state"}
# lock-free hand-over decided elsewhere (P09), and per-call objects
SKIP = re.compile(r"^(thread_state|thread_counter\w*|square_state_type|avx512_integer|mpz|__mpz|Reducer|PulmarkReducer)\b")

def run(R):
    R.rule("P02.atomic", "a scalar field or global that one thread writes and another reads without a common lock is an atomic object", floor=12)
    R.rule("P02.byref", "a scalar handed to a thread by reference is an atomic object", floor=6)
    R.rule("P02.order", "announcing stores have release ordering and the loads that rely on them acquire ordering", floor=8)
    R.rule("P02.result", "a prover announces completion only after it stored its proof, and stores nothing into it afterwards", floor=3)
    R.rule("P02.event", "an event is raised only after the progress it reports was published", floor=3)
    R.rule("P02.forms", "stored intermediates are announced only after the whole range has been stored", floor=1)
    R.rule("P02.switch", "the checkpoint spacing hint changes only after the switch-over data it depends on", floor=1)
    slots = set()
    for tu in ("vdf_client", "hw_proof"): one(R, tu, slots)
    # the two-thread generator of the hardware prover lives in a unit of its own: its announcement is the virtual call
    C = Ctx("vdf_base"); R.saw("units", "vdf_base")
    if not slots: raise Broken("no virtual completion announcement found")
    result(R, C, Order(C), slots, True)
    R.assume_("objects are constructed before the threads that share them start and destroyed after those threads were joined (decided by S04)")
    R.assume_("data other than scalars (forms, segments) is either protected by a lock (decided by P01) or handed over by one of the announcements listed here")

def lastname(f, v):
    b, ch = f.field_chain(v)
    c = [x for x in ch if not x[1].startswith("_M_")]
    if c: return c[-1][0] + "::" + c[-1][1]
    if b and b[0] == "g" and not f.mod.globals.get(b[1], {}).get("tls"): return f.mod.gname(b[1])
    return None

def shared_classes(M):
    r = set(SHARED)
    for n, st in M.structs.items():
        if any(re.search(r"\bstd::(mutex|condition_variable|atomic<|shared_mutex|recursive_mutex)", m["type"]) for m in st["members"]): r.add(n)
    ch = True
    while ch:
        ch = False
        for n, st in M.structs.items():
            bs = [clean_ty(m["type"]) for m in st["members"] if m["name"] == "<base>"]
            for b in bs:
                if n in r and b in M.structs and b not in r and not b.startswith(("std::", "INUDUPL")): r.add(b); ch = True
                if b in r and n not in r: r.add(n); ch = True
    return r

def one(R, tu, slots):
    C = Ctx(tu); M = C.M; L = C.L; O = Order(C)
    R.saw("units", tu)
    sh = shared_classes(M)
    for n in sh: 
        if n in M.structs: R.saw("shared classes", n)
    lockp = {x[0] for x in TABLE[tu]}
    starts = lambda f, i: L.is_thread_start(i) if i.is_call() else False
    acc = {}
    for f in M.funcs.values():
        if f.name in C.exempt and not (f.name in O.may(joins) or f.name in O.may(starts)): continue
        for i in f.all():
            if f.name in C.exempt and not (i.op in ("load", "store") or i.is_call() and "atomic" in i.dem): continue
            if f.name in C.exempt and quiet(O, f, i, starts): continue
            at = i.d.get("atomic")
            if i.op == "load" and i.ty in SCALAR: n = lastname(f, i.ops[0]); k = "r"
            elif i.op == "store" and i.d.get("size", 9) <= 8 and not ptrstore(f, i): n = lastname(f, i.ops[1]); k = "w"
            elif i.op in ("atomicrmw", "cmpxchg"): n = lastname(f, i.ops[0]); k = "w"
            elif i.is_call() and i.args and short(i.dem).startswith(("std::atomic", "std::__atomic_base")): n = lastname(f, i.args[0]); k = kind_of(i, "c"); at = True
            else: continue
            if not n or n in lockp: continue
            if "::" in n and n.rsplit("::", 1)[0] not in sh: continue
            if "::" not in n and (n.startswith(("guard variable", "std::", "vtable")) or M.globals.get(n, {}).get("const")): continue
            acc.setdefault(n, []).append((f, i, k, at))
    for n, a in sorted(acc.items()):
        if SKIP.search(n): continue
        ws = [x for x in a if x[2] == "w" and not prestart(C, O, starts, x[0], x[1])]
        if not ws: continue
        rs = set()
        for f, i, k, at in a:
            for r in C.roots(f.name): rs.add(r if r in C.entries else "main")
        mult = any(len(C.L.entries.get(r, ())) > 1 or looped(C, r) for x in ws for r in C.roots(x[0].name))
        if len(rs) < 2 and not (mult and any(r != "main" for r in rs)): continue
        cm = None
        for f, i, k, at in a:
            if prestart(C, O, starts, f, i): continue
            h = L.held(f, i); cm = h if cm is None else cm & h
        if cm: continue
        R.saw("polled variables", n)
        for f, i, k, at in a:
            # main-thread accesses ordered by joining every thread of the object are not concurrent
            if at: R.ok("P02.atomic", "%s %s %s %s atomically" % (i.where(), short(f.dem), {"r": "reads", "w": "writes"}[k], n)); continue
            if concurrent(C, f, i, k, a, ws):
                R.bad("P02.atomic", i.where(), "%s %s %s without atomicity, while %s" % (short(f.dem), {"r": "reads", "w": "writes"}[k], n, other(C, f, k, a, ws)), "%s %s %s" % (short(f.dem), k, n))
    byref(R, C, O)
    order(R, C, O, acc)
    result(R, C, O, slots, tu == "vdf_client")
    if tu == "vdf_client":
        event(R, C, O); forms(R, C, O); switch(R, C, O)

def quiet(O, f, i, starts):
    """in a constructor before it starts a thread, in a destructor after it joined"""
    if f.name in O.may(joins) and O.reach_without(f, [(i.bb, i.idx)], None, lambda g, x: O.mayhit(g, x, joins)) is not None: return False
    for x in f.calls():
        if x.i != i.i and O.mayhit(f, x, starts) and O.reach_without(f, O.nxt(x), None, lambda g, y: y.i == i.i) is not None: return False
    return True

def ptrstore(f, i):
    v = i.ops[0]
    if v[0] in ("g", "F"): return True
    if v[0] == "v":
        x = f.inst(v); return x.ty == "ptr"
    if v[0] == "a": return f.params[v[1]].get("ty") == "ptr"
    return v[0] == "n"

def prestart(C, O, starts, f, i, depth=0, seen=frozenset()):
    """on the main thread, before any thread was started"""
    if C.roots(f.name) & C.entries: return False
    if O.reach_without(f, [(0, 0)], None, lambda g, x: x.i == i.i, exc=True) is None: return True
    # some thread start may come before i in f
    if may_precede(O, f, i, starts): return False
    if depth > 12 or f.name in seen: return True
    if f.name != "main" and not O.callers().get(f.name) and not f.name.startswith("_GLOBAL__"): return False     # called from other units, at any time
    return all(prestart(C, O, starts, g, j, depth + 1, seen | {f.name}) for g, j in O.callers().get(f.name, ()))

def balanced(O, f, x):
    """the callee joins the threads it starts before it returns (S04)"""
    return not O.L.is_thread_start(x) and any(O.mayhit(f, x, joins) for _ in (0,))

def may_precede(O, f, i, ev):
    for x in f.calls():
        if x.i != i.i and O.mayhit(f, x, ev) and not balanced(O, f, x):
            if O.reach_without(f, O.nxt(x, True), None, lambda g, y: y.i == i.i, exc=True) is not None: return True
    return False

def looped(C, r):
    for f, i in C.L.entries.get(r, ()):
        if any(i.bb in b for b in f.loops().values()): return True
    return False

def concurrent(C, f, i, k, a, ws):
    mine = {r if r in C.entries else "main" for r in C.roots(f.name)}
    for g, j, k2, at in a:
        if k == "r" and k2 == "r": continue
        his = {r if r in C.entries else "main" for r in C.roots(g.name)}
        if len(mine | his) > 1 or any(len(C.L.entries.get(r, ())) > 1 or looped(C, r) for r in mine if r != "main"):
            if not (C.L.held(f, i) & C.L.held(g, j)): return True
    return False

def other(C, f, k, a, ws):
    for g, j, k2, at in a:
        if g is not f and (k2 == "w" or k == "w") and C.roots(g.name) != C.roots(f.name): return "%s %s it on another thread" % (short(g.dem), "writes" if k2 == "w" else "reads")
    return "another thread uses it"

def byref(R, C, O):
    bad = re.compile(r"std::reference_wrapper<(?!const)(bool|char|short|int|long|long long|double|float|unsigned [a-z ]*)>")
    for f in C.M.funcs.values():
        for i in f.calls():
            if not C.L.is_thread_start(i): continue
            m = bad.search(i.dem)
            R.check("P02.byref", not m, i.where(), "%s hands a plain %s by reference to a thread" % (short(f.dem), m.group(1) if m else ""), "%s byref" % short(f.dem))
    # parameters and fields through which a stop signal is polled: never a reference to (or copy in) a plain bool
    for n in C.L.entries:
        f = C.M.funcs[n]
        m = re.search(r"\((.*)\)", f.dem)
        for p in (m.group(1).split(",") if m else ()):
            p = p.strip()
            if re.match(r"(bool|int|unsigned \w+|long) ?(const)?&$", p): R.bad("P02.byref", f.dem, "thread function %s takes a reference to a plain %s" % (short(f.dem), p), "%s param" % short(f.dem))

WEAK_ST = ("monotonic", "unordered")
def order(R, C, O, acc):
    for n, a in acc.items():
        if n not in ANNOUNCE: continue
        for f, i, k, at in a:
            o = None
            if i.is_call():
                last = short(i.dem).split("::")[-1]
                ord_ = [x for x in i.args[1:] if x[0] == "c"] if last in ("store", "load", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong", "compare_exchange_weak", "fetch_or", "fetch_and") else []
                o = int(ord_[-1][1]) if ord_ and last in ("store", "load") and "memory_order" in i.dem else 5
                weak = o == 0
            elif i.d.get("atomic"):
                if not feasible(f, i): continue
                weak = i.d["atomic"] in WEAK_ST
            else: continue
            roots_w = {r if r in C.entries else "main" for g, j, k2, _ in a if k2 == "w" for r in C.roots(g.name)}
            mine = {r if r in C.entries else "main" for r in C.roots(f.name)}
            if k == "r" and weak and mine == roots_w and len(mine) == 1: continue
            R.check("P02.order", not weak, i.where(), "%s %s %s with relaxed ordering, so that what it announces may not be visible" % (short(f.dem), {"r": "reads", "w": "stores"}[k], n), "%s %s order %s" % (short(f.dem), k, n))

def feasible(f, i):
    """reachable when switches on constants (inlined memory orders) are taken as written"""
    if not hasattr(f, "_feas"):
        seen = set(); st = [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            t = f.blocks[b].insts[-1]
            if t.op == "switch" and t.ops and t.ops[0][0] == "c":
                v = int(t.ops[0][1])
                z = [c[1] for c in t.d["cases"] if int(c[0][1] if isinstance(c[0], (list, tuple)) else c[0]) == v]
                st += z[:1] or [t.d["def"]]; continue
            st += f.blocks[b].succ
        f._feas = seen
    return i.bb in f._feas

# ---- announcements come last
def sets(C, f, i, field, const=None):
    """i stores (the constant) into the field"""
    if i.op == "store": 
        if lastname(f, i.ops[1]) != field: return False
        v = i.ops[0]
    elif i.is_call() and i.args and short(i.dem).startswith(("std::atomic", "std::__atomic_base")) and kind_of(i, "c") == "w":
        if lastname(f, i.args[0]) != field: return False
        v = i.args[1] if len(i.args) > 1 else None
    else: return False
    if const is None: return True
    return v is not None and v[0] == "c" and bool(int(v[1])) == const or v is not None and v[0] != "c"

def event_of(C, field, const=None, exempt=True):
    key = (field, const)
    if not hasattr(C, "_ev"): C._ev = {}
    if key not in C._ev:
        if field in ("FastStorage::intermediates_stored",):
            sites = {(f.name, i.i) for f in C.M.funcs.values() if f.name not in C.exempt for i, k, d in locks.accesses(f, lambda names, g: field in names)
                     if (kind_of(i, k) == "w" if k == "c" else "w" in k) and i.op != "load"}
        else:
            sites = {(f.name, i.i) for f in C.M.funcs.values() if f.name not in C.exempt for i in f.all() if sets(C, f, i, field, const)}
        def ev(f, i, sites=sites): return (f.name, i.i) in sites
        ev.sites = sites
        C._ev[key] = ev
    return C._ev[key]

def writes_obj(C, field):
    """constructs that write into an object field (assignment operators, out-parameters)"""
    key = ("obj", field)
    if not hasattr(C, "_ev"): C._ev = {}
    if key not in C._ev:
        sites = set()
        for f in C.M.funcs.values():
            if f.name in C.exempt: continue
            for i in f.all():
                if i.op == "store":
                    b, ch = f.field_chain(i.ops[1])
                    if any(c + "::" + fl == field for c, fl, t in ch): sites.add((f.name, i.i))
                elif i.is_call() and i.callee and i.args and not i.callee.startswith("llvm."):
                    for n, v in enumerate(i.args):
                        b, ch = f.field_chain(v)
                        if not any(c + "::" + fl == field for c, fl, t in ch): continue
                        if written(C, i, n): sites.add((f.name, i.i))
        def ev(f, i, sites=sites): return (f.name, i.i) in sites
        ev.sites = sites
        C._ev[key] = ev
    return C._ev[key]

def written(C, i, n):
    """argument n of the call is an output"""
    sh = short(i.dem); last = sh.split("::")[-1]
    if last == "operator=" and n == 0: return True
    m = re.search(r"\((.*)\)( const)?$", i.dem)
    ps = [p.strip() for p in split(m.group(1))] if m else []
    off = len(i.args) - len(ps)
    if n < off: return not i.dem.endswith(" const") and last not in ("form", "integer", "~form", "~integer") and not sh.startswith("std::") and off == 1 and not last.startswith("~")
    p = ps[n - off]
    return p.endswith("&") and "const" not in p or p.endswith("*") and "const" not in p

def split(s):
    r = []; d = 0; c = ""
    for x in s:
        if x in "<([": d += 1
        if x in ">)]": d -= 1
        if x == "," and d == 0: r.append(c); c = ""
        else: c += x
    if c.strip(): r.append(c)
    return r

def joins(f, i): return i.is_call() and short(i.dem) == "std::thread::join"

def result(R, C, O, slots, own):
    W = writes_obj(C, "Prover::proof")
    A = event_of(C, "Prover::is_finished", True)
    for c, fs in O.vt.items():
        for k, n in enumerate(fs):
            if n and any(n == fn for fn, _ in A.sites) and n not in O.may(joins): slots.add(k)
    if not own: return
    if not W.sites: raise Broken("no construct stores Prover::proof")
    if not A.sites:
        A = lambda f, i: i.is_call() and i.callee is None and i.args[:1] == [("a", 0)] and O.slot(f, i) in slots
        A.sites = {(f.name, i.i) for f in C.M.funcs.values() for i in f.calls() if A(f, i)}
        if not A.sites: raise Broken("no completion announcement found")
    n = 0
    for fn, ii in sorted(A.sites):
        f = C.M.funcs[fn]; i = next(x for x in f.all() if x.i == ii)
        # the stopping side joins the thread right afterwards: nothing is announced to anyone that reads the proof
        if O.follows(f, i, joins) and O.must(joins) is not None and any(True for x in f.calls() if O.mayhit(f, x, joins)): continue
        n += 1
        R.check("P02.result", O.before_up(f, i, W), i.where(), "%s announces completion on a path on which no proof has been stored" % short(f.dem), "%s early" % short(f.dem))
    for fn, ii in sorted(W.sites):
        f = C.M.funcs[fn]; i = next(x for x in f.all() if x.i == ii)
        a = None
        for x in f.all():
            if O.mayhit(f, x, A) and O.reach_without(f, O.nxt(x), None, lambda g, y: y.i == i.i) is not None: a = x
        R.check("P02.result", a is None, i.where(), "%s writes the proof after completion was announced at %s" % (short(f.dem), a.where() if a else ""), "%s late" % short(f.dem))

def event(R, C, O):
    E = event_of(C, "new_event", True)
    pub = [event_of(C, x, c) for x, c in (("WesolowskiCallback::iterations", None), ("Prover::is_finished", True), ("FastStorage::intermediates_stored", None), ("ProverManager::stopped", True))]
    def P(f, i): return any(p(f, i) for p in pub)
    if not E.sites: raise Broken("no construct raises new_event")
    for fn, ii in sorted(E.sites):
        f = C.M.funcs[fn]; i = next(x for x in f.all() if x.i == ii)
        R.check("P02.event", O.before_up(f, i, P), i.where(), "%s raises the event before the progress it reports has been published" % short(f.dem), "%s event" % short(f.dem))

def forms(R, C, O):
    A = event_of(C, "FastStorage::intermediates_stored")
    S = {f.name for f in C.M.funcs.values() if short(f.dem) == "WesolowskiCallback::SetForm"}
    if not S: raise Broken("SetForm not found")
    def st(f, i): return i.is_call() and i.callee in S
    ups = [(f, i) for f in C.M.funcs.values() for i in f.all() if O.mayhit(f, i, A) and f.name in O.may(st) and short(f.dem).startswith("FastStorage::")]
    done = 0
    for f, i in ups:
        sites = [x for x in f.calls() if O.mayhit(f, x, st)]
        if not sites or all(x.i == i.i for x in sites): continue
        lp = [b for b in f.loops().items() if any(x.bb in b[1] for x in sites)]
        done += 1
        late = O.reach_without(f, O.nxt(i), None, lambda g, y: y in sites)
        R.check("P02.forms", late is None, i.where(), "%s announces intermediates before storing them all" % short(f.dem), "%s late" % short(f.dem))
        if not lp: continue
        h, body = max(lp, key=lambda x: len(x[1]))
        ok = i.bb not in body and f.dominates(h, i.bb)
        R.check("P02.forms", ok, i.where(), "%s announces intermediates inside the loop that stores them" % short(f.dem), "%s inside" % short(f.dem))
        for b in body:
            t = f.blocks[b].insts[-1]
            if t.op != "br" or not t.ops: continue
            for z in t.d["succ"]:
                if z in body: continue
                if O.reach_without(f, [(z, 0)], None, lambda g, y: y.i == i.i) is None: continue
                R.check("P02.forms", not polls(f, t.ops[0]), i.where(), "%s announces intermediates after leaving the storing loop early" % short(f.dem), "%s early" % short(f.dem))
    if not done: raise Broken("no function stores and announces intermediates")

def polls(f, v, depth=0):
    x = f.inst(v) if v[0] == "v" else None
    if x is None or depth > 8: return False
    if x.is_call(): return short(x.dem).startswith("std::atomic") or True
    if x.op == "load": return bool(x.d.get("atomic"))
    if x.op == "phi": return any(polls(f, w, depth + 1) for w, _ in f.phi_inc(x) if w[0] == "v")
    return any(polls(f, w, depth + 1) for w in x.ops if w and w[0] == "v")

def switch(R, C, O):
    T = event_of(C, "TwoWesolowskiCallback::transition_state"); K = event_of(C, "TwoWesolowskiCallback::kl")
    if not K.sites: return R.ok("P02.switch", "the spacing hint never changes")
    for fn, ii in sorted(K.sites):
        f = C.M.funcs[fn]; i = next(x for x in f.all() if x.i == ii)
        if not feasible(f, i): continue
        R.check("P02.switch", O.before_up(f, i, T), i.where(), "%s changes the spacing before publishing the switch-over position" % short(f.dem), "%s switch" % short(f.dem))
