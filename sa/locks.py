"""Must-hold lockset dataflow with interprocedural entry locksets, and thread entry points.

State: set of (lock object or None, mutex).  A mutex is named by its global or Class::field.  The entry lockset of a
function is the intersection of what its callers hold at each call; functions whose address is taken, thread entries
and virtual methods start with nothing."""
import re
from .ir import short, clean_ty

LOCKOBJ = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock)<[^(]*>::(\w+)\(|^std::(lock_guard|unique_lock|scoped_lock|shared_lock)<[^(]*>::(~\w+)\(")
THREADISH = re.compile(r"std::thread::thread<|std::optional<std::thread>::emplace<|std::vector<std::thread.*::emplace_back<|std::async<|std::jthread::jthread<|std::make_unique<std::thread|::construct_at<std::thread|std::optional<std::thread>::optional<|std::deque<std::thread.*::emplace_back<")

class Locks:
    def __init__(s, M):
        s.M = M; s.state = {}; s.omap = {}
        s.lib = {}
        s.entries = s.thread_entries()
        taken = s.address_taken()
        s.taken = taken
        TOP = None
        s.entry = {n: TOP for n in M.funcs}
        called = {}
        for f in M.funcs.values():
            for i in f.calls():
                for t in s.targets(i): called.setdefault(t, []).append((f, i))
        for n in M.funcs:
            if n in taken or n in s.entries or n not in called or not n.startswith("_Z"): s.entry[n] = frozenset()
        s.called = called
        work = list(M.funcs); k = 0
        ch = True
        while ch and k < 40:
            ch = False; k += 1
            for f in M.funcs.values():
                if s.entry[f.name] is None: continue
                s.flow(f)
            for n, sites in called.items():
                if n in taken or n in s.entries: continue
                e = None
                for f, i in sites:
                    if s.entry[f.name] is None: continue
                    h = s.held(f, i)
                    e = h if e is None else e & h
                if e is not None and e != s.entry[n]:
                    s.entry[n] = e; ch = True
        for n in M.funcs:
            if s.entry[n] is None: s.entry[n] = frozenset(); s.flow(M.funcs[n])

    # ---- call structure
    def through_lib(s, name):
        """repository functions a library function calls (templates instantiated with repository callables)"""
        if name in s.lib: return s.lib[name]
        s.lib[name] = set()
        r = set(); seen = {name}; st = [name]
        while st:
            for z in s.M.edges.get(st.pop(), ()):
                if z in seen or z in s.M.globals: continue
                seen.add(z)
                if z in s.M.funcs: r.add(z)
                else: st.append(z)
        s.lib[name] = r
        return r
    def targets(s, i):
        if i.callee is None: return set()
        if i.callee in s.M.funcs: return {i.callee}
        if not i.callee.startswith("_Z") or THREADISH.search(i.dem): return set()
        return s.through_lib(i.callee)
    def is_thread_start(s, i): return bool(i.callee) and bool(THREADISH.search(i.dem))
    def thread_bodies(s, f, i):
        """functions a thread started by call i runs"""
        r = set()
        for a in i.args:
            if a[0] == "F" and a[1] in s.M.funcs: r.add(a[1])
            b, _ = f.base_off(a)
            x = f.inst(b)
            if x is not None and x.op == "alloca":
                for u in f.all():
                    if u.op == "store" and f.base_off(u.ops[1])[0] == b:
                        r |= {z[1] for z in flat(u.ops[0]) if z[0] == "F" and z[1] in s.M.funcs}
            if a[0] == "g":
                r |= {z for z in s.M.edges.get(a[1], ()) if z in s.M.funcs}
        for z in s.through_lib(i.callee):
            if short(s.M.funcs[z].dem).endswith("operator()"): r.add(z)
        # lambdas and bound calls: std::thread's state object calls them from its virtual _M_run
        seen = {i.callee}; st = [i.callee]
        while st:
            for z in s.M.edges.get(st.pop(), ()):
                if z in seen: continue
                seen.add(z)
                if z in s.M.funcs:
                    r.add(z); continue
                if z in s.M.globals and "_State_impl" not in z: continue
                st.append(z)
        return r
    def thread_entries(s):
        r = {}
        for f in s.M.funcs.values():
            for i in f.calls():
                if s.is_thread_start(i):
                    for b in s.thread_bodies(f, i): r.setdefault(b, []).append((f, i))
        return r
    def address_taken(s):
        r = set()
        for f in s.M.funcs.values():
            for i in f.all():
                vs = list(i.args) + list(i.ops)
                for v in vs:
                    for z in flat(v):
                        if z[0] == "F" and not (i.is_call() and False): r.add(z[1])
        for g in s.M.globals:
            for z in s.M.edges.get(g, ()):
                if z in s.M.funcs: r.add(z)
        return r

    # ---- mutex names
    def mutex(s, f, v):
        fs = s.name(f, v)
        if fs: return fs
        b, o = f.base_off(v)
        i = f.inst(b)
        if i is not None and i.is_call() and i.args: return s.mutex(f, i.args[0])     # get(), operator->, operator*
        if i is not None and i.op == "load": return s.mutex(f, i.ops[0]) 
        return "?" + str(b)
    def name(s, f, v):
        b, ch = f.field_chain(v)
        c = [x for x in ch if not x[1].startswith("_M_")]
        if c: return c[0][0] + "::" + c[0][1]
        if b and b[0] == "g": return s.M.gname(b[1])
        return None

    # ---- dataflow
    def flow(s, f):
        key = f.name
        ent = frozenset(("entry", m) for m in s.entry[key])
        n = len(f.blocks); IN = [None] * n; IN[0] = ent
        om = s.omap.setdefault(key, {})
        work = [0]; st = {}
        while work:
            b = work.pop()
            cur = IN[b]
            for i in f.blocks[b].insts:
                st[i.i] = cur
                if i.op == "invoke":
                    u = i.d["unw"]; s.merge(IN, u, cur, work) if False else None
                new = s.transfer(f, i, cur, om)
                if i.op == "invoke":
                    un = cur if s.acquires(i) else new
                    s.push(IN, i.d["unw"], un, work); s.push(IN, i.d["norm"], new, work)
                    cur = new; break
                cur = new
            else:
                for z in f.blocks[b].succ: s.push(IN, z, cur, work)
        s.state[key] = st
    def push(s, IN, z, cur, work):
        if IN[z] is None: IN[z] = cur; work.append(z)
        else:
            m = IN[z] & cur
            if m != IN[z]: IN[z] = m; work.append(z)
    def acquires(s, i):
        m = LOCKOBJ.match(i.dem)
        return bool(m) and not (m.group(4) or "").startswith("~")
    def transfer(s, f, i, cur, om):
        if not i.is_call() or not i.callee: return cur
        m = LOCKOBJ.match(i.dem)
        if m:
            kind = m.group(2) or m.group(4)
            o = f.base_off(i.args[0])[0]
            if kind in ("lock_guard", "unique_lock", "scoped_lock", "shared_lock"):
                if re.search(r"\((std::)?(unique_lock|scoped_lock|shared_lock)<[^(]*>&&\)$", i.dem):
                    src = f.base_off(i.args[1])[0]
                    mv = {(a, x) for a, x in cur if a == src}
                    if src in om: om[o] = om[src]
                    return frozenset((cur - mv) | {(o, x) for a, x in mv})
                ms = [s.mutex(f, a) for a in i.args[1:] if "mutex" in i.dem]
                if "defer_lock_t" in i.dem or "try_to_lock_t" in i.dem:
                    om[o] = frozenset(ms[:1]); return cur
                if "adopt_lock_t" in i.dem: ms = ms[:1] if len(ms) > 1 else ms
                if not ms: return cur
                om[o] = frozenset(ms)
                return cur | {(o, x) for x in ms}
            if kind.startswith("~"): return frozenset((a, x) for a, x in cur if a != o)
            if kind == "unlock": return frozenset((a, x) for a, x in cur if a != o)
            if kind == "lock": return cur | {(o, x) for x in om.get(o, ())}
            if kind == "release": return frozenset((None if a == o else a, x) for a, x in cur)
            return cur
        sh = short(i.dem)
        if sh in ("std::mutex::lock", "std::recursive_mutex::lock", "std::shared_mutex::lock"): return cur | {(None, s.mutex(f, i.args[0]))}
        if sh in ("std::mutex::unlock", "std::recursive_mutex::unlock", "std::shared_mutex::unlock"):
            x = s.mutex(f, i.args[0]); return frozenset((a, y) for a, y in cur if y != x)
        g = s.M.funcs.get(i.callee)
        if g is not None:
            for k in s.unlocks_params(g):
                if k < len(i.args):
                    o = f.base_off(i.args[k])[0]
                    cur = frozenset((a, x) for a, x in cur if a != o)
            for x in s.unlocks_mutex(g): cur = frozenset((a, y) for a, y in cur if y != x)
        return cur
    def unlocks_params(s, g):
        r = set()
        for i in g.calls():
            m = LOCKOBJ.match(i.dem)
            if m and (m.group(2) or "") in ("unlock", "release") and i.args[0][0] == "a": r.add(i.args[0][1])
        return r
    def unlocks_mutex(s, g):
        """mutexes a helper releases that it did not acquire itself"""
        key = "um:" + g.name
        if key in s.lib: return s.lib[key]
        s.lib[key] = set()
        u = {s.mutex(g, i.args[0]) for i in g.calls() if short(i.dem) == "std::mutex::unlock"}
        l = {s.mutex(g, i.args[0]) for i in g.calls() if short(i.dem) == "std::mutex::lock"}
        s.lib[key] = u - l
        return u - l
    def held(s, f, i):
        st = s.state.get(f.name, {}).get(i.i)
        return frozenset(x for _, x in st) if st is not None else frozenset()

def flat(v):
    if not v: return
    if isinstance(v[0], str) and v[0] in ("F", "g", "a", "v", "c", "n", "u", "z"): yield v; return
    yield v
    for x in v[1:]:
        if isinstance(x, tuple) and x: yield from flat(x)

def derived(f, want): return accesses(f, want, only=True)
def accesses(f, want, only=False):
    """(inst, kind r/w/rw, derived) of every access to memory named by want(names) or reached through references into it"""
    derived = set(); cells = set()
    def is_src(v):
        if v in derived: return True
        b, ch = f.field_chain(v)
        names = {c + "::" + fl for c, fl, t in ch}
        if b and b[0] == "g": names.add(f.mod.gname(b[1]))
        return want(names, f)
    res = []
    ch = True; seen = set()
    while ch:
        ch = False
        for i in f.all():
            if i.op in ("getelementptr", "phi", "select", "bitcast", "extractvalue", "insertvalue"):
                src = i.ops + [v for v, _ in (f.phi_inc(i) if i.op == "phi" else [])]
                if i.op == "getelementptr": src = i.ops[:1]
                if ("v", i.i) not in derived and any(v in derived for v in src): derived.add(("v", i.i)); ch = True
                continue
            if i.op == "store":
                if i.ops[0] in derived:
                    b = f.base_off(i.ops[1])[0]
                    x = f.inst(b)
                    if x is not None and x.op == "alloca" and b not in cells: cells.add(b); ch = True
                continue
            if i.op == "load":
                if i.ty in ("ptr",) or "ptr" in i.ty:
                    if f.base_off(i.ops[0])[0] in cells and ("v", i.i) not in derived: derived.add(("v", i.i)); ch = True
                    elif is_src(i.ops[0]) and ("v", i.i) not in derived and i.ops[0] not in derived: derived.add(("v", i.i)); ch = True
                continue
            if i.is_call() and i.callee and not i.callee.startswith("llvm."):
                if any(is_src(a) or f.base_off(a)[0] in cells or a in derived for a in i.args):
                    if i.ty != "void" and ("ptr" in i.ty) and ("v", i.i) not in derived: derived.add(("v", i.i)); ch = True
    if only: return derived
    for i in f.all():
        if i.op == "load" and is_src(i.ops[0]): res.append((i, "r", i.ops[0] in derived))
        elif i.op == "store" and is_src(i.ops[1]): res.append((i, "w", i.ops[1] in derived))
        elif i.op in ("atomicrmw", "cmpxchg") and is_src(i.ops[0]): res.append((i, "rw", False))
        elif i.is_call() and i.callee and not i.callee.startswith(("llvm.dbg", "llvm.lifetime")):
            if any(is_src(a) for a in i.args): res.append((i, "c", any(a in derived for a in i.args)))
            elif any(f.base_off(a)[0] in cells for a in i.args if a[0] == "v"): res.append((i, "c", True))
    return res
