"""C02: the library entry points share no mutable state and use no nondeterminism source."""
import re
from .. import ir, gmp
from ..effects import Effects
from ..ir import Broken, short

NONDET = re.compile(r"^(rand|random|srand|rand_r|drand48|time|clock|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|gettid|__rdtsc|llvm\.readcyclecounter|strtok|localtime|gmtime|setlocale|fopen|open|read|getrandom|_ZNSt6chrono.*3nowEv|_ZNSt13random_device.*|__gmp_rand.*|__gmpz_urandom.*|__gmpz_rrandom.*|_ZNSt6thread.*|pthread_create|hardware_concurrency|_ZNSt3_V2.*3nowEv)")

def entries(m, tu):
    out = []
    for f in m.funcs.values():
        if tu == "c_wrapper":
            if not f.name.startswith("_Z") and f.file.endswith("c_wrapper.cpp"): out.append(f)
        elif "fastvdf.cpp" in f.file and f.spname == "operator()": out.append(f)
    return out

def run(R):
    R.rule("C02.global-write", "no function reachable from a library entry point writes a process-wide (non-thread-local, non-constant) object", floor=150)
    R.rule("C02.nondet", "no function reachable from a library entry point calls a clock, random, environment or thread-creation primitive", floor=150)
    R.rule("C02.tls-history", "every member of per-thread scratch is written before it is read in each call that uses it", floor=8)
    ir.compile_all(["c_wrapper", "fastvdf", "bqfc", "lzcnt"])
    for tu in ("c_wrapper", "fastvdf", "bqfc", "lzcnt"):
        m = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
        if tu in ("bqfc", "lzcnt"):
            reach = set(m.funcs)
        else:
            es = entries(m, tu)
            if len(es) < (4 if tu == "c_wrapper" else 8):
                raise Broken("only %d entry points found in %s" % (len(es), tu))
            for e in es: R.saw("entry points", tu + ":" + (e.dem if tu == "c_wrapper" else "lambda@%d" % e.line))
            reach = m.reach([e.name for e in es])
        E = Effects(m)
        for f in m.funcs.values():
            if f.name not in reach or f.name.startswith(("__cxx_global_", "_GLOBAL__", "__tls_init")): continue
            R.saw("functions", f.dem)
            bad = False
            # one-time initialisation of a guarded static by its own constructor
            guards = [i for i in f.calls() if i.callee == "__cxa_guard_acquire"]
            for g, i in E.g[f.name]:
                G = m.globals.get(g)
                if G is None: continue
                if G["tls"] or G["const"]: continue
                if G["decl"] and (g.startswith("_ZSt") or g in ("stdout", "stderr")): continue   # std::cout etc., internally synchronised
                if g.startswith("_ZGV"): continue
                if guarded_init(f, g, i, guards): continue
                bad = True
                R.bad("C02.global-write", i.where(), "%s writes the process-wide object '%s'" % (short(f.dem), G["dem"]), key="%s writes %s" % (short(f.dem), G["dem"]))
            if not bad: R.ok("C02.global-write", "%s:%s" % (tu, short(f.dem)))
            nd = [i for i in f.calls() if i.callee and NONDET.match(i.callee)]
            nd = [i for i in nd if i.callee != "getenv" or True]
            for i in nd:
                R.bad("C02.nondet", i.where(), "%s calls %s" % (short(f.dem), short(i.dem)), key="%s calls %s" % (short(f.dem), short(i.dem)))
            if not nd: R.ok("C02.nondet", "%s:%s" % (tu, short(f.dem)))
        if tu in ("c_wrapper",):
            tls_rule(R, m, reach)

def guarded_init(f, g, i, guards):
    """the write constructs a function-local static under its initialisation guard"""
    gv = "_ZGV" + g[2:] if g.startswith("_Z") else None
    for a in guards:
        if a.args and a.args[0][0] == "g" and a.args[0][1] == gv and f.idom_inst(a, i):
            # and before the release
            rel = [x for x in f.calls() if x.callee == "__cxa_guard_release" and x.args[0][:2] == a.args[0][:2]]
            if rel and not any(f.idom_inst(x, i) for x in rel): return True
    return False

def tls_rule(R, m, reach):
    tls = {n for n, g in m.globals.items() if g["tls"] and not n.startswith("_ZGV")}
    for n in tls:
        users = [f for f in m.funcs.values() if f.name in reach and any(touches(f, i, n) for i in f.all())]
        for f in users:
            if is_tls_wrapper(f): continue
            roots = [re.escape(f.dem) + "$"]
            v = ir.view(m.tu, roots=["^" + re.escape(f.dem) + "$"], keep=[r"::[a-z_]*(ctx|tls)\(\)$"], passes=None)
            F = v.funcs.get(f.name)
            if F is None: raise Broken("view of %s lost" % f.dem)
            R.saw("functions using thread-local scratch", f.dem)
            scan_tls(R, F, n, m.globals[n])

def touches(f, i, n):
    return any(v and v[0] == "g" and v[1] == n for v in i.ops + i.args)
def is_tls_wrapper(f): return f.name.startswith("__tls") or f.name.startswith("_ZTW") or f.name.startswith("__cxx_global")

def tls_base(f, v, n):
    b, off = f.base_off(v)
    for _ in range(6):
        i = f.inst(b)
        if i is not None and i.is_call() and (i.callee or "").startswith("llvm.threadlocal.address"):
            b2, o2 = f.base_off(i.args[0]); b = b2; off = None if off is None or o2 is None else off + o2
        else: break
    if b and b[0] == "g" and b[1] == n: return (True, off)
    return (False, None)

def scan_tls(R, f, n, G):
    """forward must-written dataflow over the byte offsets of the scratch object"""
    ev = {}   # block -> list of (kind, offset, inst)
    guard = set()
    for b in f.blocks:
        L = []
        for i in b.insts:
            if i.op in ("load", "store"):
                p = i.ops[0] if i.op == "load" else i.ops[1]
                t, off = tls_base(f, p, n)
                if t: L.append(("r" if i.op == "load" else "w", off, i))
            elif i.is_call():
                r = gmp.roles(i)
                if r is None: 
                    for a in i.args:
                        t, off = tls_base(f, a, n)
                        if t and not (i.callee or "").startswith("llvm."): L.append(("call", off, i))
                    continue
                if i.callee == "__gmpz_swap":
                    t1, o1 = tls_base(f, i.args[0], n); t2, o2 = tls_base(f, i.args[1], n)
                    L.append(("swap", (o1 if t1 else None, o2 if t2 else None), i)); continue
                rd, wr = [], []
                for a, ro in r:
                    t, off = tls_base(f, a, n)
                    if not t: continue
                    if ro in "ib": rd.append(off)
                    if ro in "obp": wr.append(off)
                for o in rd: L.append(("r", o, i))
                for o in wr: L.append(("w", o, i))
        ev[b.b] = L
    ALL = None
    state = {0: frozenset()}
    order = [b.b for b in f.blocks]
    ch = True; n_it = 0
    IN = {b: ALL for b in order}; IN[0] = frozenset()
    bad = {}
    def do_swap(cur, pair):
        # None stands for a number outside the scratch object, which always holds a value
        a, b = (x if x is None else x - x % 16 for x in pair)
        ha, hb = (a is None or a in cur), (b is None or b in cur)
        for o, h in ((a, hb), (b, ha)):
            if o is not None: (cur.add if h else cur.discard)(o)
    def norm(o):   # fields of an mpz (alloc/size/limb pointer) belong to the mpz at its start
        return None if o is None else o - o % 16
    while ch:
        ch = False
        for b in order:
            if IN[b] is None: continue
            cur = set(IN[b])
            for k, off, i in ev[b]:
                if k == "swap": do_swap(cur, off)
                elif k == "w": cur.add(norm(off))
            for z in f.blocks[b].succ:
                new = frozenset(cur) if IN[z] is None else IN[z] & cur
                if new != IN[z]: IN[z] = new; ch = True
    fields = set()
    for b in order:
        if IN[b] is None: continue
        cur = set(IN[b])
        for k, off, i in ev[b]:
            if k == "swap": do_swap(cur, off); continue
            o = norm(off)
            if k == "r":
                if o is None or o not in cur:
                    if i.op == "load" and o is None: continue
                    R.bad("C02.tls-history", i.where(), "per-thread scratch '%s' (offset %s) is read before this call has written it: the result depends on earlier calls" % (G["dem"], o), key="%s+%s" % (G["dem"], o))
                else: fields.add(o)
            elif k == "w": cur.add(o); fields.add(o)
            else: pass
    for o in fields: R.ok("C02.tls-history", "%s+%d written before read on all paths of %s" % (G["dem"].split("::")[-1], o if o is not None else -1, f.short))
