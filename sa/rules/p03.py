"""P03: condition-variable discipline (predicates, notifications, atomicity with the waiter's mutex, stop)."""
import re
from .. import ir, locks
from ..ir import Broken, short
from .p01 import Ctx, isctor, virtuals, kind_of

WAIT = re.compile(r"std::condition_variable(_any)?::wait(_for|_until)?\b")
NOTIFY = re.compile(r"std::condition_variable(_any)?::notify_(one|all)\b")
GROW = ("insert", "emplace", "operator[]", "push_back", "emplace_back", "push", "push_front", "swap", "operator=", "merge", "resize", "assign", "insert_or_assign", "try_emplace", "emplace_front", "emplace_hint")
SHRINK = ("erase", "pop_back", "pop_front", "pop", "clear", "extract")

def run(R):
    R.rule("P03.predicate", "every wait on a condition variable re-tests a predicate over shared state: it passes one, or stands in a loop that tests it", floor=4)
    R.rule("P03.notified", "every write that can make a waiter's predicate true is followed on all paths by a notification of that condition variable (or by a test at least as weak as the predicate that decides whether to notify)", floor=8)
    R.rule("P03.atomic", "between such a write and its notification the waiter's mutex is held or acquired at least once, so that a waiter that saw the old value is asleep when notified", floor=8)
    R.rule("P03.stop", "the stopping side (a stop function or destructor) makes the predicate of every wait true and notifies", floor=4)
    R.rule("P03.all", "where several threads with different predicates can wait on one condition variable, or on stop, all of them are notified", floor=4)
    R.rule("P03.mutex", "all waits on one condition variable use one mutex", floor=4)
    C = Ctx("vdf_client")
    R.saw("units", "vdf_client")
    W = collect(R, C)
    cvs = {}
    for w in W: cvs.setdefault(w.cv, []).append(w)
    for cv, ws in cvs.items():
        R.saw("condition variables", cv)
        ms = {w.mutex for w in ws}
        R.check("P03.mutex", len(ms) == 1, ws[0].i.where(), "waits on %s use %s" % (cv, " and ".join(sorted(ms))), key=cv)
    N = Notes(C)
    for w in W: judge(R, C, N, w)
    R.assume_("a thread that leaves a function by an exception does not owe a notification")
    R.assume_("the value compared in a conditional notification is at most the value any waiter compares with (the earliest pending request)")

class Wait:
    pass

def fieldkey(C, f, v):
    return C.L.name(f, v)

def collect(R, C):
    out = []
    for f in C.M.funcs.values():
        for i in f.calls():
            m = WAIT.search(i.dem)
            if not m or not i.callee or "::condition_variable" in short(i.dem).replace("std::condition_variable::wait", ""): continue
            w = Wait(); w.f = f; w.i = i; w.timed = bool(m.group(2))
            w.cv = C.L.mutex(f, i.args[0])
            lk = f.base_off(i.args[1])[0]
            h = [x for o, x in C.L.state[f.name].get(i.i, ()) if o == lk]
            w.mutex = h[0] if h else "?"
            if w.mutex == "?":
                R.bad("P03.mutex", i.where(), "%s waits on %s with a lock that is not held" % (short(f.dem), w.cv), key="%s %s" % (short(f.dem), w.cv))
            pred = [C.M.funcs[t] for t in C.L.through_lib(i.callee) if short(C.M.funcs[t].dem).endswith("operator()") or "lambda" in C.M.funcs[t].dem]
            pred += [C.M.funcs[a[1]] for a in i.args if a[0] == "F" and a[1] in C.M.funcs]
            if pred:
                w.ev = Eval(C, pred[0]); w.kind = "passes a predicate"
            else:
                lp = [b for b in f.loops().values() if i.bb in b]
                if not lp:
                    if w.timed: continue
                    R.bad("P03.predicate", i.where(), "%s waits on %s without re-testing any predicate after waking" % (short(f.dem), w.cv), key="%s %s" % (short(f.dem), w.cv)); continue
                body = min(lp, key=len)
                w.ev = Eval(C, f, start=(i.bb, i.idx + 1) if i.op == "call" else (i.d["norm"], 0), loop=body, wait=i); w.kind = "stands in a loop"
            w.table = w.ev.table()
            if not w.ev.fields:
                R.bad("P03.predicate", i.where(), "the predicate of the wait on %s in %s reads no shared state" % (w.cv, short(f.dem)), key="%s %s" % (short(f.dem), w.cv)); continue
            R.ok("P03.predicate", "%s %s on %s %s over %s" % (i.where(), short(f.dem), w.cv, w.kind, ", ".join(sorted(w.ev.fields))))
            out.append(w)
    if len(out) < 4 and not any(k.startswith("P03.predicate") for k in R.viol): raise Broken("only %d condition-variable waits found" % len(out))
    return out

class Eval:
    """truth table of a predicate over atoms: ('b', field) boolean state, ('e', field) emptiness, ('c', function, inst) comparisons"""
    def __init__(s, C, f, start=(0, 0), loop=None, wait=None):
        s.C = C; s.f = f; s.start = start; s.loop = loop; s.wait = wait
        s.fields = set(); s.cmps = {}; s.atoms = []
    def table(s):
        """list of (assignment dict, truth)"""
        rows = []; todo = [()]
        n = 0
        while todo:
            fix = todo.pop(); n += 1
            if n > 4000: raise Broken("predicate of a wait is too large")
            s.asg = dict(fix); s.need = None
            try: r = s.runf(s.f, s.start, {}, top=True)
            except Need as e:
                todo.append(fix + ((e.k, True),)); todo.append(fix + ((e.k, False),)); continue
            rows.append((dict(fix), r))
        return rows
    def ask(s, k):
        if k not in s.asg: raise Need(k)
        return s.asg[k]
    def runf(s, f, start, args, top=False, depth=0):
        b, idx = start; frm = None; env = dict(args); steps = 0
        while True:
            steps += 1
            if steps > 200: raise Broken("predicate of a wait contains a loop")
            if top and s.loop is not None and b not in s.loop: return True
            blk = f.blocks[b]; nxt = None
            for i in blk.insts[idx:]:
                if top and s.wait is not None and i.i == s.wait.i: return False
                if i.op == "phi":
                    v = next((v for v, p in f.phi_inc(i) if p == frm), None)
                    env[i.i] = s.val(f, env, v)
                elif i.op == "ret":
                    if top and s.loop is not None: return True
                    return s.truth(f, env, i.ops[0], depth) if i.ops else None
                elif i.op == "br":
                    if not i.ops: nxt = i.d["succ"][0]
                    else: nxt = i.d["succ"][0] if s.truth(f, env, i.ops[0], depth) else i.d["succ"][1]
                elif i.op == "switch": nxt = blk.succ[0]
                elif i.op == "invoke": s.step(f, env, i, depth); nxt = i.d["norm"]
                elif i.op in ("unreachable", "resume"): return False
                else: s.step(f, env, i, depth)
            if nxt is None: return None
            frm = b; b = nxt; idx = 0
    def val(s, f, env, v):
        if v is None: return None
        if v[0] == "c": return bool(int(v[1])) if v[2] <= 8 else ("n", v)
        if v[0] == "v": return env.get(v[1], ("u", f.name, v[1]))
        return ("u",) + tuple(v)
    def step(s, f, env, i, depth):
        if i.op in ("trunc", "zext", "freeze"): env[i.i] = s.val(f, env, i.ops[0])
        elif i.op == "xor":
            a, b = s.val(f, env, i.ops[0]), s.val(f, env, i.ops[1])
            if i.ops[1][0] == "c": env[i.i] = ("not", a) if not isinstance(a, bool) else not a
            else: env[i.i] = ("u", f.name, i.i)
        elif i.op in ("and", "or") and i.ty in ("i1", "i8"): env[i.i] = (i.op, s.val(f, env, i.ops[0]), s.val(f, env, i.ops[1]))
        elif i.op == "select" and i.ty in ("i1", "i8"): env[i.i] = ("sel", s.val(f, env, i.ops[0]), s.val(f, env, i.ops[1]), s.val(f, env, i.ops[2]))
        elif i.op == "load":
            k = s.C.L.name(f, i.ops[0])
            if i.ty in ("i8", "i1") and k: env[i.i] = ("b", k)
        elif i.op == "icmp":
            a = s.val(f, env, i.ops[0])
            if i.ops[1][0] == "c" and int(i.ops[1][1]) == 0 and i.d["pred"] in ("ne", "eq") and isinstance(a, tuple) and a and a[0] in ("b", "e", "not", "and", "or", "c"):
                env[i.i] = a if i.d["pred"] == "ne" else ("not", a)
            elif i.d["pred"] in ("ne", "eq", "ugt") and i.ops[1][0] == "c" and int(i.ops[1][1]) == 0 and isinstance(a, tuple) and a[:1] == ("size",):
                env[i.i] = ("e", a[1]) if i.d["pred"] == "eq" else ("not", ("e", a[1]))
            else:
                k = ("c", f.name, i.i)
                s.cmps[k] = (f, i); env[i.i] = k
                for o in i.ops: s.fields |= s.deps(f, o)
        elif i.is_call() and i.callee:
            sh = short(i.dem); last = sh.split("::")[-1].split("[abi")[0]
            k = s.C.L.name(f, i.args[0]) if i.args else None
            if sh.startswith(("std::atomic", "std::__atomic_base")) and i.ty in ("i1", "i8") and k: env[i.i] = ("b", k)
            elif sh.startswith("std::") and last == "empty" and k: env[i.i] = ("e", k)
            elif sh.startswith("std::") and last == "size" and k: env[i.i] = ("size", k)
            elif i.callee in s.C.M.funcs and i.ty in ("i1", "i8") and depth < 5:
                env[i.i] = ("call", i.callee, depth)
                r = s.runf(s.C.M.funcs[i.callee], (0, 0), {}, depth=depth + 1)
                env[i.i] = r
    def deps(s, f, v, d=0):
        r = set()
        i = f.inst(v)
        if i is None or d > 12: return r
        if i.op == "load":
            k = s.C.L.name(f, i.ops[0])
            if k and "lambda" not in k: r.add(k)
            return r
        if i.is_call():
            for a in i.args:
                k = s.C.L.name(f, a)
                if k and not ("lambda" in k): r.add(k)
            if i.callee in s.C.M.funcs:
                g = s.C.M.funcs[i.callee]
                for j in g.all():
                    if j.op == "load":
                        k = s.C.L.name(g, j.ops[0])
                        if k: r.add(k)
                    elif j.is_call():
                        for a in j.args:
                            k = s.C.L.name(g, a)
                            if k: r.add(k)
            for a in i.args: r |= s.deps(f, a, d + 1)
            return r
        for o in i.ops: r |= s.deps(f, o, d + 1)
        if i.op == "phi":
            for o, _ in f.phi_inc(i): r |= s.deps(f, o, d + 1)
        return r
    def truth(s, f, env, v, depth):
        return s.tr(s.val(f, env, v), f)
    def tr(s, x, f):
        if isinstance(x, bool): return x
        if x is None: return s.ask(("x",))
        if x[0] == "b":
            s.fields.add(x[1]); return s.ask(x)
        if x[0] == "e":
            s.fields.add(x[1]); return s.ask(x)
        if x[0] == "not": return not s.tr(x[1], f)
        if x[0] == "and": return s.tr(x[1], f) and s.tr(x[2], f)
        if x[0] == "or": return s.tr(x[1], f) or s.tr(x[2], f)
        if x[0] == "sel": return s.tr(x[2] if s.tr(x[1], f) else x[3], f)
        return s.ask(x)

class Need(Exception):
    def __init__(s, k): s.k = k

def flips(rows, k, to):
    """can changing atom k to `to` make the predicate true"""
    T = [a for a, r in rows if r and a.get(k, to) == to]
    F = [a for a, r in rows if not r and a.get(k, not to) == (not to)]
    return any(all(x == k or a.get(x, y) == y for x, y in b.items()) for a in T for b in F)

def writes(C, w):
    """(function, instruction, description) of every write that can make the predicate true"""
    out = []
    for f in C.M.funcs.values():
        if isctor(f) and "::~" not in short(f.dem): continue
        if f.name.startswith("_GLOBAL__") or "__cxx_global_var_init" in f.dem: continue
        for i in f.all():
            if i.op == "store":
                k = fieldkey(C, f, i.ops[1])
                if k in w.ev.fields and able(w, k, i.ops[0]): out.append((f, i, k))
            elif i.is_call() and i.callee and i.args:
                k = fieldkey(C, f, i.args[0])
                if k not in w.ev.fields: continue
                sh = short(i.dem); last = sh.split("::")[-1].split("[abi")[0]
                if sh.startswith(("std::atomic", "std::__atomic_base")):
                    if kind_of(i, "c") == "w" and able(w, k, i.args[1] if len(i.args) > 1 else None): out.append((f, i, k))
                elif sh.startswith("std::"):
                    if ("e", k) in atoms(w):
                        if last in GROW and flips(w.table, ("e", k), False) or last in SHRINK and flips(w.table, ("e", k), True): out.append((f, i, k))
                    elif last in GROW + SHRINK and any(k in w.ev.deps(g, o) for g, j in w.ev.cmps.values() for o in j.ops): out.append((f, i, k))
    return out

def atoms(w): return {k for a, r in w.table for k in a}
def able(w, k, v):
    if ("b", k) in atoms(w):
        if v is not None and v[0] == "c": return flips(w.table, ("b", k), bool(int(v[1])))
        return True
    return any(k in w.ev.deps(g, o) for g, j in w.ev.cmps.values() for o in j.ops)

class Notes:
    """notify sites, directly or through functions that notify on every path"""
    def __init__(s, C):
        s.C = C; s.direct = {}
        for f in C.M.funcs.values():
            for i in f.calls():
                if NOTIFY.search(i.dem) and i.callee: s.direct.setdefault((f.name, i.i), (C.L.mutex(f, i.args[0]), "all" if "notify_all" in i.dem else "one"))
        s.always = {}
    def at(s, f, i, cv, d=0):
        x = s.direct.get((f.name, i.i))
        if x: return x[0] == cv
        if i.is_call() and i.callee in s.C.M.funcs and d < 4: return s.fn(i.callee, cv, d + 1)
        return False
    def fn(s, n, cv, d):
        k = (n, cv)
        if k in s.always: return s.always[k]
        s.always[k] = False
        g = s.C.M.funcs[n]
        s.always[k] = bool(g.blocks) and not escapes(s.C, s, g, 0, 0, cv, d)[0] and any(s.at(g, i, cv, d) for i in g.calls())
        return s.always[k]
    def acq(s, f, i, m, d=0):
        """this instruction acquires mutex m"""
        L = s.C.L
        if not i.is_call() or not i.callee: return False
        before = {x for _, x in L.state[f.name].get(i.i, ())}
        after = {x for _, x in L.transfer(f, i, L.state[f.name].get(i.i) or frozenset(), dict(L.omap.get(f.name, {})))}
        if m in after and m not in before: return True
        if i.callee in s.C.M.funcs and d < 4:
            g = s.C.M.funcs[i.callee]
            return any(s.acq(g, j, m, d + 1) for j in g.blocks[0].insts if j.is_call())
        return False

def escapes(C, N, f, bb, idx, cv, d=0, field=None, w=None):
    """(True, block) when a return is reachable from (bb, idx) without a notification of cv; also the unguarded guard text"""
    seen = set(); st = [(bb, idx)]; bad = None
    while st:
        b, k = st.pop()
        if (b, k) in seen or (k == 0 and (b, 0) in seen): continue
        seen.add((b, k))
        blk = f.blocks[b]; stop = False
        for i in blk.insts[k:]:
            if N.at(f, i, cv, d): stop = True; break
            if field and d < 3 and i.is_call() and i.callee in C.M.funcs:
                g = C.M.funcs[i.callee]
                if any(x[0] == cv for (fn, ii), x in N.direct.items() if fn == g.name) and not escapes(C, N, g, 0, 0, cv, d + 1, field, w)[0]: stop = True; break
            if i.op == "ret": return True, i
        if stop: continue
        t = blk.term
        if field and t.op == "br" and t.ops and len(set(blk.succ)) == 2 and guard(C, N, f, t, cv, field, w, d): continue
        for z in blk.succ:
            if t.op == "invoke" and z == t.d["unw"]: continue
            st.append((z, 0))
    return False, None

STRICT = {"ugt": (">", True), "sgt": (">", True), "uge": (">", False), "sge": (">", False), "ult": ("<", True), "slt": ("<", True), "ule": ("<", False), "sle": ("<", False), "eq": ("=", False), "ne": ("!", False)}
SWAP = {">": "<", "<": ">", "=": "=", "!": "!"}

def cmpof(C, ev, f, i, field):
    """(direction, strict) of a comparison as 'field OP other'"""
    l = field in ev.deps(f, i.ops[0]); r = field in ev.deps(f, i.ops[1])
    if l == r: return None
    d, s = STRICT[i.d["pred"]]
    return (d, s) if l else (SWAP[d], s)

def guard(C, N, f, t, cv, field, w, d):
    """the branch decides whether cv is notified, by a test of the written field that is at least as weak as the predicate's"""
    ok = [z for z in t.d["succ"] if leads(N, f, z, cv, d)]
    if len(ok) != 1: return False
    cs = controlling(C, f, [t.ops[0]])
    mine = [(c, cmpof(C, w.ev, g, c, field)) for g, c in cs if field in w.ev.deps(g, c.ops[0]) | w.ev.deps(g, c.ops[1])] if cs else []
    if not mine: return False
    preds = [cmpof(C, w.ev, g, j, field) for g, j in w.ev.cmps.values()]
    preds = [x for x in preds if x]
    neg = {">": "<", "<": ">", "=": "!", "!": "="}
    for c, x in mine:
        if x is None: return True
        for p in preds:
            # the comparison, or its complement when the notifying side is the false one
            for y in (x, (neg[x[0]], not x[1] if x[0] in "<>" else x[1])):
                if y[0] == p[0] and (not y[1] or p[1]): return True
    return not preds

def leads(N, f, z, cv, d):
    """from block z a notification is the first thing that must happen"""
    for _ in range(6):
        blk = f.blocks[z]
        if any(N.at(f, i, cv, d) for i in blk.insts): return True
        s = [x for x in blk.succ if not (blk.term.op == "invoke" and x == blk.term.d["unw"])]
        if len(s) != 1: return False
        z = s[0]
    return False

def controlling(C, f, roots, d=0):
    """(function, comparison) pairs that determine the branch, through boolean locals and predicate functions"""
    out = []; seen = set(); st = list(roots)
    while st:
        v = st.pop(); i = f.inst(v)
        if i is None or i.i in seen: continue
        seen.add(i.i)
        if i.op == "icmp": out.append((f, i))
        elif i.op == "phi":
            dom = f.dom().get(i.bb)
            # branches between the immediate dominator and the phi
            back = set(); q = list(f.blocks[i.bb].pred)
            while q:
                b = q.pop()
                if b in back: continue
                back.add(b)
                if b != dom: q += f.blocks[b].pred
            for b in back:
                tt = f.blocks[b].term
                if tt.op == "br" and tt.ops: st.append(tt.ops[0])
            st += [v for v, _ in f.phi_inc(i)]
        elif i.is_call():
            g = C.M.funcs.get(i.callee)
            if g is not None and g.blocks and d < 3 and i.ty in ("i1", "i8"):
                rs = [j.ops[0] for j in g.all() if j.op == "ret" and j.ops]
                out += controlling(C, g, rs, d + 1)
            else: st += list(i.args)
        else: st += list(i.ops)
    return out

def judge(R, C, N, w):
    ws = writes(C, w)
    cv = w.cv; stops = []
    if not ws:
        R.bad("P03.notified", w.i.where(), "nothing ever makes the predicate of the wait on %s in %s true" % (cv, short(w.f.dem)), key="%s %s" % (short(w.f.dem), cv)); return
    for f, i, k in ws:
        nm = short(f.dem)
        ok, why = settled(C, N, f, i, cv, k, w, 0)
        R.check("P03.notified", ok, i.where(), "%s changes %s %s notifying %s%s" % (nm, k, "and then" if ok else "without", cv, "" if ok else " on every path" ), key="%s %s %s" % (nm, k, cv))
        if ok:
            at = atomic(C, N, f, i, cv, w.mutex, 0)
            R.check("P03.atomic", at, i.where(), "%s changes %s %s holding or taking %s before notifying %s" % (nm, k, "while" if at else "without", w.mutex, cv), key="%s %s %s atomic" % (nm, k, cv))
            if nm.split("::")[-1] in ("stop", "Stop", "shutdown") or "::~" in nm or "shutdown" in f.dem or stoppish(C, f): stops.append((f, i, k))
    if not w.timed:
        R.check("P03.stop", bool(stops), w.i.where(), "the wait on %s in %s %s by the stopping side" % (cv, short(w.f.dem), "is ended" if stops else "is never ended"), key="%s %s stop" % (short(w.f.dem), cv))
    # notify_one
    multi = []
    for e in C.roots(w.f.name) | vroots(C, w.f):
        for g, s in C.L.entries.get(e, ()):
            if any(s.bb in b for b in g.loops().values()): multi.append((g, s))
    ones = [(C.M.funcs[fn], C.M.funcs[fn].insts[ii], x) for (fn, ii), x in N.direct.items() if x[0] == cv and x[1] == "one"]
    same = interchangeable(w)
    for f, i, x in ones:
        onstop = any(f.name == g.name for g, _, _ in stops)
        bad = multi and (not same or onstop)
        R.check("P03.all", not bad, i.where(), "%s notifies one waiter of %s%s" % (short(f.dem), cv, "; several threads can wait there" if bad else ", the only possible one"), key="%s one %s" % (short(f.dem), cv))
    if not ones: R.ok("P03.all", "%s is always notified with notify_all" % cv)

def stoppish(C, f):
    seen = set(); st = [f.name]
    while st:
        for c in C.callers.get(st.pop(), ()):
            if c in seen: continue
            seen.add(c); st.append(c)
            x = short(C.M.funcs[c].dem).split("::")[-1]
            if x in ("stop", "Stop", "shutdown") or x.startswith("~"): return True
    return False

def vroots(C, f):
    """thread entries that reach f through a virtual call (f overrides a method)"""
    r = set()
    if f.name not in virtuals(C): return r
    seen = set(); st = []
    cls = short(f.dem).rsplit("::", 1)[0]
    for e in C.entries:
        if cls in C.M.funcs[e].dem: r.add(e)
    return r

def interchangeable(w):
    """the predicate depends on shared state only, so that all waiters wait for the same thing"""
    for g, j in w.ev.cmps.values():
        for o in j.ops:
            if o[0] == "c": continue
            st = [o]
            while st:
                i = g.inst(st.pop())
                if i is None: continue
                if i.op == "load":
                    b, ch = g.field_chain(i.ops[0])
                    if b == ("a", 0) and "lambda" in g.dem and not i.ty.startswith("ptr"): return False
                st += list(i.ops) + list(i.args)
    return True

def settled(C, N, f, i, cv, field, w, d):
    if i.op == "invoke": start = (i.d["norm"], 0)
    else: start = (i.bb, i.idx + 1)
    esc, at = escapes(C, N, f, start[0], start[1], cv, 0, field, w)
    if not esc: return True, None
    if d >= 3: return False, at
    cs = [(C.M.funcs[c], j) for c in C.callers.get(f.name, ()) for j in C.M.funcs[c].calls() if f.name in C.L.targets(j)]
    if not cs or f.name in C.entries: return False, at
    return all(settled(C, N, g, j, cv, field, w, d + 1)[0] for g, j in cs), at

def atomic(C, N, f, i, cv, m, d):
    if m in C.L.held(f, i): return True
    seen = set(); st = [(i.d["norm"], 0) if i.op == "invoke" else (i.bb, i.idx + 1)]
    ret = False
    while st:
        b, k = st.pop()
        if (b, k) in seen: continue
        seen.add((b, k)); blk = f.blocks[b]; stop = False
        for j in blk.insts[k:]:
            if N.acq(f, j, m): stop = True; break
            if N.at(f, j, cv):
                if m in C.L.held(f, j): stop = True; break
                return False
            if j.op == "ret": ret = True
        if stop: continue
        for z in blk.succ:
            if blk.term.op == "invoke" and z == blk.term.d["unw"]: continue
            st.append((z, 0))
    if ret and d < 3:
        cs = [(C.M.funcs[c], j) for c in C.callers.get(f.name, ()) for j in C.M.funcs[c].calls() if f.name in C.L.targets(j)]
        return all(atomic(C, N, g, j, cv, m, d + 1) for g, j in cs)
    return True
