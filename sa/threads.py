"""Thread lifetimes: which threads are live at every point of a function that owns thread objects.

The function is analysed with its lambdas and its thread-handling helpers inlined.  A state is (block, threads started and
not joined, known values of local flags and pointers); calls that start, join, move or destroy threads change it.
Exceptions are followed where a call can really raise one (a repository throw, a network call without error_code)."""
import re
from . import ir
from .ir import short, clean_ty
from .order import vtables

THREAD_T = re.compile(r"std::j?thread\b(?!::)")
VEC = r"std::(?:__cxx11::)?(?:vector|deque|list)<std::thread\b"
NETTHROW = re.compile(r"boost::asio::(write|read|connect|read_until|write_at)<")
SOCKTHROW = re.compile(r"::basic_(stream_)?socket<.*::(send|receive|read_some|write_some|connect|close|shutdown)")
LIBTHROW = re.compile(r"std::(__cxx11::)?(sto(i|l|ul|ll|ull|d|f)\b|vector<.*>::at\(|map<.*>::at\(|deque<.*>::at\(|future<|__throw_)")

# the arithmetic layer raises only for discriminants and sizes no session gets past its own checks with (V04, S03)
ARITH = re.compile(r"/(integer\w*|checked_cast|vdf_new|ClassGroup|generic|double_utility|gcd_\w+|asm_\w+|nucomp|primetest|pprods|Reducer|create_discriminant|proof_common|bqfc)\.(h|c|hpp)$")

def last(d): return short(d).split("::")[-1]
def isdtor(d):
    return last(d).split("[")[0].startswith("~")

class Throws:
    """functions of the not-inlined program an exception can leave"""
    def __init__(s, O):
        s.O = O; s.M = O.M; s.set = set(); s.memo = {}
        ch = True
        while ch:
            ch = False
            for f in s.M.funcs.values():
                if f.name in s.set or f.nounwind: continue
                if any(s.site(f, i) and s.leaves(f, i) for i in f.calls()): s.set.add(f.name); ch = True
    def handled(s, f, i):
        if i.op != "invoke": return False
        for x in f.blocks[i.d["unw"]].insts:
            if x.op == "landingpad":
                return any(k == "catch" and (tuple(v) == ("n",) or tuple(v)[:2] == ("g", "_ZTISt9exception")) for k, v in x.d["clauses"])
        return False
    def leaves(s, f, i): return not s.handled(f, i)
    def site(s, f, i):
        c = i.callee
        if c in ("__cxa_throw", "__cxa_rethrow"): return not (i.loc and ARITH.search(i.loc[0]))
        return s.call(f, i)
    def call(s, f, i):
        """may this call raise (allocation failure and failure to start a thread are not considered)"""
        if i.d.get("nounwind"): return False
        c = i.callee
        if c in ("__cxa_throw", "__cxa_rethrow"): return True
        if c is None: return bool(s.O.virt(f, i) & s.set)
        if c in s.set: return True
        if c in s.M.funcs: return False
        if NETTHROW.search(i.dem) or SOCKTHROW.search(i.dem): return "error_code" not in i.dem.split("(")[-1] and "error_code" not in i.dem
        if LIBTHROW.search(i.dem): return True
        if s.O.L.is_thread_start(i) and "::thread<" in i.dem: return False
        return bool(s.O.L.targets(i) & s.set)

class Owners:
    """classes that hold threads, and the methods that start and join them"""
    def __init__(s, O):
        s.O = O; s.M = O.M; L = O.L
        s.cls = {}
        for n, st in s.M.structs.items():
            ms = [m for m in st["members"] if THREAD_T.search(m["type"]) and not n.startswith(("std::", "boost::", "_"))]
            if ms and not n.startswith(("class.", "(lambda", "anon")): s.cls[n] = [m["name"] for m in ms]
        s.cls = {c: v for c, v in s.cls.items() if any(s.method(f) == c for f in s.M.funcs.values())}
    def method(s, f):
        if "lambda" in f.dem or "$_" in f.dem: return None
        p = short(f.dem).split("::")
        return p[-2] if len(p) > 1 else None

def stores_to(f):
    if not hasattr(f, "_st"):
        f._st = {}
        for i in f.all():
            if i.op == "store": f._st.setdefault(f.base_off(i.ops[1])[0], []).append(i)
    return f._st

def objs(f, v, seen=None):
    """objects a pointer value may denote: allocas, allocation calls, globals, parameters"""
    if seen is None: seen = set()
    b, _ = f.base_off(v)
    if b in seen or not b: return set()
    seen.add(b)
    if b[0] in ("g", "a"): return {b}
    i = f.inst(b)
    if i is None: return set()
    if i.op == "alloca": return {b}
    if i.op == "load":
        a = f.base_off(i.ops[0])[0]; ai = f.inst(a)
        if ai is not None and ai.op == "alloca":
            r = set(); lo = f.base_off(i.ops[0])[1]
            for st in stores_to(f).get(a, ()):
                so = f.base_off(st.ops[1])[1]
                if lo is None or so is None or lo == so: r |= objs(f, st.ops[0], seen)
            return r
        return {("m",) + tuple(sorted(objs(f, i.ops[0], seen)))}
    if i.op == "phi":
        r = set()
        for x, _ in f.phi_inc(i): r |= objs(f, x, seen)
        return r
    if i.op == "select": return objs(f, i.ops[1], seen) | objs(f, i.ops[2], seen)
    if i.op in ("extractvalue", "insertvalue"):
        r = set()
        for x in i.ops: r |= objs(f, x, seen)
        return r
    if i.is_call():
        c = i.callee or ""
        if c in ("_Znwm", "_Znam", "malloc", "calloc"): return {b}
        if i.args and (i.dem.startswith("std::") or "std::" in i.dem): return objs(f, i.args[0], seen)
        return {b}
    return {b}

def stored_ptrs(f, b, depth=0):
    """objects pointed to from inside local object b (closures, reference wrappers, argument copies)"""
    r = set()
    for st in stores_to(f).get(b, ()):
        if st.ops[0][0] in ("v", "a", "g"): r |= {o for o in objs(f, st.ops[0]) if o != b}
    # aggregates copied or returned into it
    if depth < 3:
        for i in f.calls():
            if i.callee and i.callee.startswith("llvm.mem") and len(i.args) > 1 and f.base_off(i.args[0])[0] == b:
                r |= stored_ptrs(f, f.base_off(i.args[1])[0], depth + 1)
            elif i.callee and i.args and f.base_off(i.args[0])[0] == b and i.dem.startswith("std::") and re.search(r"std::(bind|make_tuple|ref|reference_wrapper)", i.dem):
                for a in i.args[1:]: r |= objs(f, a)
    return r

class Live:
    """exploration of one function"""
    def __init__(s, f, O, owners, throws, ends=False, flagwriters=()):
        s.fw = flagwriters; s.setall = {}; s.onjoin = None
        s.ends = ends      # an exception out of this function ends the process (thread body without handlers)
        s.f = f; s.O = O; s.ow = owners; s.th = throws
        s.refs = {}; s.bad = []; s.trail = {}; s.starts = []; s.states = {}
        s.vt = vtables(f.mod)
        s.joinloops = s.find_joinloops()
        s.classify()
    # ---- what calls do
    def classify(s):
        f = s.f; s.eff = {}
        L = s.O.L
        for i in f.calls():
            e = s.effect(i)
            if e: s.eff[i.i] = e
        for i in f.calls():
            e = s.eff.get(i.i)
            if e and e[0] == "start":
                s.starts.append(i)
                for o in e[1]: s.refs.setdefault(o, set()).update(s.referents(i, e))
        ch = True
        while ch:
            ch = False
            for i in f.calls():
                e = s.eff.get(i.i)
                if e and e[0] == "move":
                    for d in e[1]:
                        for sr in e[2]:
                            n = s.refs.get(sr, set()) - s.refs.setdefault(d, set())
                            if n: s.refs[d] |= n; ch = True
        # objects of classes that hold threads refer to everything handed to their methods
        for i in f.calls():
            g = f.mod.decls.get(i.callee) if i.callee else None
            c = s.cls_of_call(i)
            if c in s.ow.cls and i.args:
                for o in objs(f, i.args[0]):
                    if isdtor(i.dem): continue
                    for a in i.args[1:]:
                        for x in objs(f, a):
                            if x != o and last(i.dem) == c and not s.copied(x): s.refs.setdefault(o, set()).add(x)
        # what the objects a thread refers to refer to in turn
        ch = True
        while ch:
            ch = False
            for o in list(s.refs):
                for x in list(s.refs[o]):
                    n = s.refs.get(x, set()) - s.refs[o] - {o}
                    if n: s.refs[o] |= n; ch = True
    def copied(s, x):
        """a by-value argument object"""
        i = s.f.inst(x)
        return i is not None and i.op == "alloca" and any(k.is_call() and isdtor(k.dem) and k.args and s.f.base_off(k.args[0])[0] == x and s.temp(x) for k in s.f.users.get(x, ()))
    def temp(s, x):
        return not s.f.vnames.get(x)
    def cls_of_call(s, i):
        if not i.callee or "lambda" in i.dem: return None
        p = short(i.dem).split("::")
        return p[-2] if len(p) > 1 else None
    def referents(s, i, e):
        f = s.f; r = set()
        for k, a in enumerate(i.args):
            if k == 0 and not e[2]: continue
            if a[0] == "F": continue
            b = f.base_off(a)[0]; x = f.inst(b)
            if x is not None and x.op == "alloca": r |= stored_ptrs(f, b)
            else: r |= objs(f, a)
        return r - set(e[1])
    def effect(s, i):
        f = s.f; O = s.O
        d = i.dem; sh = short(d); ln = last(d)
        if i.callee is None:
            if i.args and s.virtual_dtor(i): return ("destroy", objs(f, i.args[0]), None)
            return None
        if i.callee in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
            return ("free", objs(f, i.args[0]), None)
        if sh in ("std::thread::thread", "std::jthread::jthread"):
            if re.search(r"thread\(std::j?thread&&\)$", d): return ("move", objs(f, i.args[0]), objs(f, i.args[1]))
            if len(i.args) < 2: return None
            return ("start", objs(f, i.args[0]), False)
        if sh == "std::thread::operator=": return ("move", objs(f, i.args[0]), objs(f, i.args[1]))
        if sh == "std::thread::swap" or sh == "std::swap" and "std::thread&" in d: return ("move", objs(f, i.args[0]) | objs(f, i.args[1]), objs(f, i.args[0]) | objs(f, i.args[1]))
        if sh == "std::thread::join": return ("join", objs(f, i.args[0]), None)
        if sh == "std::thread::detach": return ("detach", objs(f, i.args[0]), None)
        if re.search(VEC, d) and re.match(r"(void |std::thread& |auto )?" + VEC, d):
            if ln in ("push_back", "insert", "emplace_back", "emplace", "push_front", "emplace_front"):
                src = i.args[-1]
                if re.search(r"(push_back|push_front)\(std::thread&&\)|emplace_back<std::thread>\(", d): return ("move", objs(f, i.args[0]), objs(f, src))
                if ln == "insert": return ("move", objs(f, i.args[0]), objs(f, src))
                return ("start", objs(f, i.args[0]), False)
            if ln in ("clear", "pop_back", "erase", "resize", "pop_front"): return ("drop", objs(f, i.args[0]), None)
            if ln == "operator=" : return ("move", objs(f, i.args[0]), objs(f, i.args[1]))
        if O.L.is_thread_start(i):
            return ("start", objs(f, i.args[0]) if i.args else set(), False)
        if sh in ("std::for_each", "std::ranges::for_each") and "std::thread" in d and s.calls_join(i):
            r = set()
            for a in i.args:
                for o in objs(f, a):
                    r.add(o)
                    r |= stored_ptrs(f, o)
                    for k in f.calls():      # iterators made by begin()/end()
                        if ("v", k.i) in [z.ops[0] for z in stores_to(f).get(o, ())] and k.args: r |= objs(f, k.args[0])
            return ("join", r, None)
        c = s.cls_of_call(i)
        if c in s.ow.cls and i.callee in O.M.funcs and i.args:
            if isdtor(d):
                return ("destroy", objs(f, i.args[0]), "joins" if s.joins_all(i.callee) else None)
            st = s.starts_member(i.callee); jn = s.joins_all(i.callee)
            if st: return ("start", objs(f, i.args[0]), False)
            if jn: return ("join", objs(f, i.args[0]), None)
        if isdtor(d) and i.args: return ("destroy", objs(f, i.args[0]), None)
        return None
    def calls_join(s, i):
        return any(short(k.dem) == "std::thread::join" for t in s.O.L.targets(i) for k in s.O.M.funcs[t].calls()) or "mem_fn" in i.dem or "void (std::thread::*" in i.dem
    def virtual_dtor(s, i):
        n = None
        cv = i.d.get("cv"); x = s.f.inst(ir.tuplify(cv)) if cv else None
        if x is not None and x.op == "load":
            b, off = s.f.base_off(x.ops[0]); y = s.f.inst(b)
            if y is not None and y.op == "load" and isinstance(off, int): n = off // 8
        if n is None: return False
        cl = set()
        for o in objs(s.f, i.args[0]):
            for k in s.f.users.get(o, ()):
                c = s.cls_of_call(k) if k.is_call() else None
                if c and last(k.dem) == c and k.args and k.args[0] == o: cl.add(c)
        for c in (cl & set(s.vt)) or set(s.vt):
            t = s.vt[c]
            if n < len(t) and t[n] and re.search(r"D[012]Ev$", t[n]): return True
        return False
    def starts_member(s, n):
        O = s.O; L = O.L
        key = ("sm", n)
        if key in O.memo: return O.memo[key]
        O.memo[key] = False
        f = O.M.funcs[n]; r = False
        for i in f.calls():
            if L.is_thread_start(i) and not (short(i.dem) == "std::thread::thread" and s.localonly(f, i)): r = True
            elif i.callee in O.M.funcs and s.ow.method(O.M.funcs[i.callee]) == s.ow.method(f) and i.args and i.args[0] == ("a", 0) and s.starts_member(i.callee): r = True
        O.memo[key] = r
        return r
    def localonly(s, f, i):
        """a thread object that is joined in the function that starts it"""
        b = f.base_off(i.args[0])[0]; x = f.inst(b)
        if x is None or x.op != "alloca": return False
        return any(k.is_call() and short(k.dem) == "std::thread::join" and f.base_off(k.args[0])[0] == b for k in f.users.get(b, ()))
    def joins_all(s, n):
        """the method joins every thread its object holds (decided by the class rule)"""
        return n in s.ow.joining
    # ---- join-all loops
    def find_joinloops(s):
        return joinloops(s.f, objs)
    # ---- exploration
    def known(s, env, v):
        if v[0] == "c": return int(v[1]) & 1 if v[2] == 1 else (1 if int(v[1]) else 0)
        if v[0] in ("n",): return 0
        return env.get(v)
    def run(s, limit=200000):
        f = s.f
        s.tracked = {("v", i.i) for i in f.all() if i.op == "alloca"}
        start = (0, None, frozenset(), frozenset())
        seen = {start}; st = [start]; n = 0; s.parent = {}
        while st:
            s.cur = st.pop(); b, pred, live, env = s.cur; n += 1
            if n > limit: raise ir.Broken("%s: too many thread states" % f.dem)
            for nx in s.block(b, pred, live, dict(env)):
                if nx not in seen: seen.add(nx); st.append(nx); s.parent[nx] = s.cur
        s.nstates = n
        return s
    def note(s, i, kind, text, key): s.bad.append((i, kind, text, key)); s.trail.setdefault(key, s.cur)
    def path(s, key):
        r = []; k = s.trail.get(key)
        while k is not None:
            r.append(k); k = s.parent.get(k)
        return r[::-1]
    def block(s, b, pred, live, env):
        f = s.f; out = []
        blk = f.blocks[b]
        # values defined by phis
        for i in blk.insts:
            if i.op != "phi": break
            k = None
            for v, pb in f.phi_inc(i):
                if pb == pred: k = s.known(env, v)
            env.pop(("v", i.i), None)
            if k is not None: env[("v", i.i)] = k
        def go(z, live, env):
            # keep what later blocks may use
            if (b, z) in s.setall: env = dict(env); env.update({k: 1 for k in s.setall[(b, z)]})
            e = frozenset((k, v) for k, v in env.items() if k in s.tracked or s.usedoutside(k, b))
            jl = s.joinloops.get((b, z))
            if jl: live = live - jl
            out.append((z, b if any(x.op == "phi" for x in f.blocks[z].insts[:1]) else None, live, e))
        for i in blk.insts:
            if i.op == "phi": continue
            v = ("v", i.i); env.pop(v, None)
            s.states.setdefault(i.i, set()).add(live)
            if i.op == "store":
                a, off = f.base_off(i.ops[1])
                if a in s.tracked:
                    if off in (0, None):
                        k = s.known(env, i.ops[0])
                        if i.ops[0][0] == "v" and k is None:
                            x = f.inst(i.ops[0])
                            if x.is_call() and x.callee in ("_Znwm", "_Znam"): k = 1
                        if off == 0 and k is not None: env[a] = k
                        else: env.pop(a, None)
                continue
            if i.op == "load":
                a, off = f.base_off(i.ops[0])
                if a in env and off == 0: env[v] = env[a]
                continue
            if i.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                k = s.known(env, i.ops[0])
                if k is not None: env[v] = k
                continue
            if i.op == "xor" and i.ops[1] == ("c", "-1", 1):
                k = s.known(env, i.ops[0])
                if k is not None: env[v] = 1 - k
                continue
            if i.op == "icmp" and i.d.get("pred") in ("eq", "ne") and (i.ops[1][0] == "n" or i.ops[1][0] == "c" and i.ops[1][1] == "0"):
                k = s.known(env, i.ops[0])
                if k is not None: env[v] = (1 - k) if i.d["pred"] == "eq" else k
                continue
            if i.op == "icmp" and i.d.get("pred") == "eq" and any(s.typeid(o) for o in i.ops):
                env[v] = 1; continue
            if i.op == "ret":
                left = {o for o in live if s.local(o)}
                for o in left: s.note(i, "exit", "returns while %s has not been joined" % s.name(o), "return %s" % s.name(o))
                s.exits = getattr(s, "exits", 0) + 1
                continue
            if i.op == "resume":
                for o in {o for o in live if s.local(o)}: s.note(i, "exit", "an exception leaves the function while %s has not been joined" % s.name(o), "unwind %s" % s.name(o))
                s.exits = getattr(s, "exits", 0) + 1
                continue
            if i.is_call():
                # atomics and flags
                r = s.atomic(i, env)
                if r is not None: env[v] = r
                if short(i.dem) == "std::thread::joinable" and i.args:
                    o = objs(f, i.args[0])
                    if len(o) == 1 and all(s.isalloca(x) for x in o) and not s.container(o): env[v] = 1 if o <= live else 0
                raises = s.th.call(f, i) or i.callee in ("__cxa_throw", "__cxa_rethrow")
                if raises and not s.ends:
                    if i.op == "invoke": go(i.d["unw"], live, env)
                    else:
                        for o in {o for o in live if s.local(o)}: s.note(i, "exit", "%s may throw out of the function while %s has not been joined" % (last(i.dem), s.name(o)), "throw %s" % s.name(o))
                if i.callee in ("__cxa_throw", "__cxa_rethrow"): return out
                if s.onjoin is not None:
                    e = s.eff.get(i.i)
                    if e and e[0] == "join": s.onjoin(i, live, env)
                    if i.args and last(i.dem).split("[")[0] in ("emplace_back", "push_back", "emplace", "push_front", "emplace_front", "resize"):
                        for x in objs(f, i.args[0]): env.pop(x, None)
                live = s.apply(i, live)
                if i.op == "invoke": go(i.d["norm"], live, env); return out
                continue
            if i.op == "br":
                if len(i.d["succ"]) == 2:
                    k = s.known(env, i.ops[0])
                    for z, w in zip(i.d["succ"], (1, 0)):
                        if k is None or k == w:
                            e = dict(env)
                            if i.ops[0][0] == "v": e[i.ops[0]] = w
                            go(z, live, e)
                else: go(i.d["succ"][0], live, env)
                return out
            if i.op == "switch":
                for z in blk.succ: go(z, live, env)
                return out
        return out
    def usedoutside(s, k, b):
        return any(u.bb != b or u.op == "phi" for u in s.f.users.get(k, ()))
    def typeid(s, o):
        x = s.f.inst(o)
        return x is not None and x.is_call() and (x.callee or "").startswith("llvm.eh.typeid.for") and x.args and x.args[0][:2] == ("g", "_ZTISt9exception")
    def isalloca(s, o):
        i = s.f.inst(o)
        return i is not None and i.op == "alloca"
    def local(s, o):
        if o[0] == "v": return True
        return False
    def name(s, o):
        n = s.f.vnames.get(o)
        if n: return "thread object '%s'" % n[0][0]
        i = s.f.inst(o)
        return "the thread object created at %s" % (i.where() if i is not None else "?") if o[0] == "v" else str(o)
    def oname(s, o):
        n = s.f.vnames.get(o)
        if n: return "'%s'" % n[0][0]
        for a, sts in stores_to(s.f).items():
            if any(o in objs(s.f, x.ops[0]) for x in sts) and s.f.vnames.get(a): return "'*%s'" % s.f.vnames[a][0][0]
        i = s.f.inst(o)
        return "an object" if i is None else "the object made at %s" % i.where()
    def atomic(s, i, env):
        if not i.callee or not i.args: return None
        sh = short(i.dem)
        if i.callee.startswith("llvm.memset") and i.args[1][0] == "c" and i.args[1][1] == "0" and i.args[2][0] == "c":
            a, off = s.f.base_off(i.args[0])
            if a in s.tracked and off == 0 and not s.fw: env[a] = 0
            return None
        if sh.startswith(("std::atomic::", "std::__atomic_base::")):
            a = s.f.base_off(i.args[0])[0]; ln = last(i.dem).split("[")[0]
            if a not in s.tracked: return None
            if ln in ("atomic", "__atomic_base") and len(i.args) > 1 or ln in ("operator=", "store", "exchange"):
                k = s.known(env, i.args[1])
                if k == 1 or k == 0 and not s.fw: env[a] = k
                else: env.pop(a, None)
                return k if ln == "operator=" else None
            if ln.startswith("operator ") or ln in ("load", "operator bool"): return env.get(a)
        return None
    def apply(s, i, live):
        e = s.eff.get(i.i)
        if not e: return live
        k, o = e[0], e[1]
        if k == "start": return live | frozenset(o)
        if k == "move":
            if any(x in live for x in e[2]):
                tgt = set(o)
                if short(i.dem) == "std::thread::operator=" and any(x in live for x in o): s.note(i, "overwrite", "%s is overwritten before it was joined" % s.name(sorted(o)[0]), "overwrite")
                return (live - frozenset(e[2])) | frozenset(tgt)
            return live
        if k == "join":
            if s.in_loop_part(i, o): return live
            if s.container(o): return live      # one element only; the loop edge joins the container
            return live - frozenset(o)
        if k == "detach":
            s.note(i, "detach", "%s is detached" % ", ".join(s.name(x) for x in o), "detach")
            return live - frozenset(o)
        if k in ("destroy", "free", "drop"):
            for x in o:
                if x in live:
                    if e[2] == "joins": live = live - {x}
                    elif k != "free": s.note(i, "destroy", "%s is destroyed while its thread has not been joined" % s.name(x), "destroy " + s.name(x))
            for t in live:
                for x in o:
                    if x in s.refs.get(t, ()) and x != t:
                        s.note(i, "use", "%s is destroyed while %s, which uses it, has not been joined" % (s.oname(x), s.name(t)), "use %s %s" % (s.oname(x), s.name(t)))
        return live
    def container(s, o):
        for x in o:
            i = s.f.inst(x)
            if i is not None and i.op == "alloca":
                for t in s.f.vtypes.get(x, ()):
                    if re.search(VEC, t): return True
                if any(k.is_call() and re.search(VEC, k.dem) for k in s.f.users.get(x, ())): return True
        return False
    def in_loop_part(s, i, o): return False

def joinloops(f, objs_):
    """(loop block, exit block) -> container objects all of whose elements were joined when that edge is taken"""
    res = {}
    LP = f.loops()
    for h, body in LP.items():
        js = [i for b in body for i in f.blocks[b].insts if i.is_call() and joincall(f, i)]
        if not js: continue
        for j in js:
            cont = set(objs_(f, j.args[0]))
            exits = [(b, z) for b in body for z in f.blocks[b].succ if z not in body and f.blocks[b].term.op != "invoke"]
            if len(exits) != 1: continue
            xb, xz = exits[0]
            if not everyround(f, h, body, j): continue
            c = f.inst(f.blocks[xb].term.ops[0]) if f.blocks[xb].term.ops else None
            src = whole(f, c, body, h)
            if src is None: continue
            r = set()
            for o in src: r |= objs_(f, o)
            r = expand(f, r, objs_)
            cont = expand(f, cont, objs_)
            res[(xb, xz)] = frozenset(x for x in cont | r) if cont & r else frozenset()
    return res

def joincall(f, i): return short(i.dem) == "std::thread::join" or getattr(f, "_joiners", None) and i.callee in f._joiners

def expand(f, r, objs_):
    """containers behind range-for variables and iterators"""
    r = set(r); ch = True
    while ch:
        ch = False
        for o in list(r):
            if o[0] == "m":
                for x in o[1:]:
                    if x not in r: r.add(x); ch = True
                continue
            for st in stores_to(f).get(o, ()):
                n = objs_(f, st.ops[0]) - r
                if n: r |= n; ch = True
            # iterator objects constructed by calls writing through their first argument
            for k in f.users.get(o, ()):
                if k.is_call() and k.args and k.args[0] == o and len(k.args) > 1 and re.search(r"::(begin|end|rbegin|cbegin)\b|__normal_iterator::__normal_iterator|_Deque_iterator", short(k.dem)):
                    n = objs_(f, k.args[1]) - r
                    if n: r |= n; ch = True
    return r

def everyround(f, h, body, j):
    """each round of the loop performs j unless the element is not joinable"""
    st = [h]; seen = set()
    while st:
        b = st.pop()
        if b in seen or b not in body: continue
        seen.add(b)
        if b == j.bb: continue
        t = f.blocks[b].term
        for z in f.blocks[b].succ:
            if t.op == "invoke" and z == t.d["unw"]: continue
            if t.op == "br" and len(t.d["succ"]) == 2 and z in body:
                c = f.inst(t.ops[0])
                if c is not None and joinable(f, c) is not None and z == t.d["succ"][1 if joinable(f, c) else 0]: continue
            if z == h: return False
            st.append(z)
    return True

def joinable(f, c):
    """True if c is joinable(), False if it is its negation"""
    pol = True
    for _ in range(6):
        if c is None: return None
        if c.is_call(): return pol if short(c.dem) == "std::thread::joinable" else None
        if c.op == "xor" and c.ops[1][0] == "c": pol = not pol; c = f.inst(c.ops[0]); continue
        if c.op == "icmp" and c.ops[1][0] in ("c", "n"):
            pol = pol if c.d["pred"] == "ne" else not pol; c = f.inst(c.ops[0]); continue
        if c.op in ("zext", "trunc", "freeze"): c = f.inst(c.ops[0]); continue
        return None
    return None

def strip(f, v):
    x = f.inst(v)
    while x is not None and x.op in ("zext", "sext", "trunc", "freeze"): v = x.ops[0]; x = f.inst(v)
    return v

def whole(f, c, body, h):
    """pointers to the container a loop condition counts over completely (index 0..size, begin..end, until empty)"""
    if c is None: return None
    while c.op == "xor" and c.ops[1][0] == "c":
        c = f.inst(c.ops[0])
        if c is None: return None
    if c.is_call():
        ln = last(c.dem).split("[")[0]
        if ln == "empty": return [c.args[0]]
        if ln in ("operator!=", "operator=="): return list(c.args) if all(fullrange(f, a, body) for a in c.args) else None
        return None
    if c.op != "icmp": return None
    a, b = strip(f, c.ops[0]), strip(f, c.ops[1])
    for x, y in ((a, b), (b, a)):
        yi = f.inst(y); xi = f.inst(x)
        if yi is not None and yi.is_call() and last(yi.dem).split("[")[0] == "size":
            if xi is None: 
                continue
            if not counts(f, xi, body, h): continue
            if c.d["pred"] not in ("ult", "slt", "ne", "ugt", "sgt", "eq"): continue
            if c.d["pred"] in ("ult", "slt") and x != a: continue
            if c.d["pred"] in ("ugt", "sgt") and x != b: continue
            return [yi.args[0]]
        # index running down from size()
        if xi is not None and xi.op == "phi" and y[0] == "c" and y[1] in ("0",) and xi.bb == h:
            for v, pb in f.phi_inc(xi):
                if pb not in body:
                    q = f.inst(strip(f, v))
                    if q is not None and q.is_call() and last(q.dem).split("[")[0] == "size": return [q.args[0]]
        if yi is None and y[0] == "c" and y[1] == "0" and xi is not None and xi.is_call() and last(xi.dem).split("[")[0] == "size": return [xi.args[0]]
        # iterators compared as pointers: __normal_iterator::base() or begin()/end()
    ps = []
    for v in (a, b):
        i = f.inst(v)
        if i is None: return None
        if i.is_call() and last(i.dem).split("[")[0] in ("base", "begin", "end", "cbegin", "cend", "rbegin", "rend"): ps += list(i.args[:1])
        elif i.op in ("load", "phi") and i.ty == "ptr": ps.append(v)
        else: return None
        if not fullrange(f, ps[-1], body): return None
    return ps or None

def fullrange(f, v, body, depth=0):
    """an iterator that starts at one end of its container and is moved only inside the loop"""
    i = f.inst(f.base_off(v)[0])
    if i is None or depth > 4: return True
    def shifted(x):
        k = f.inst(x)
        if k is None: return False
        if k.is_call():
            if last(k.dem).split("[")[0] in ("operator+", "operator-", "next", "prev", "operator++", "operator--", "operator+=", "operator-="): return True
            return False
        return k.op in ("getelementptr", "add", "sub")
    if i.op == "alloca":
        for st in stores_to(f).get(("v", i.i), ()):
            if st.bb not in body and shifted(st.ops[0]): return False
        for k in f.users.get(("v", i.i), ()):
            if k.is_call() and k.bb not in body and k.args and k.args[0] == ("v", i.i) and last(k.dem).split("[")[0] in ("operator++", "operator--", "operator+=", "operator-=", "operator+", "operator-"): return False
            if k.is_call() and k.bb not in body and "std::advance" in k.dem: return False
        return True
    if i.op == "phi":
        return not any(shifted(x) for x, pb in f.phi_inc(i) if pb not in body)
    if i.is_call(): return not shifted(("v", i.i))
    return True

def counts(f, x, body, h):
    """x is an index 0, 1, 2, ... of the loop with header h"""
    if x.op == "load":     # not promoted (address taken): accept only if initialised to 0 and incremented by one
        a = f.base_off(x.ops[0])[0]
        sts = stores_to(f).get(a, ())
        ini = [s for s in sts if s.bb not in body]; inc = [s for s in sts if s.bb in body]
        def plus1(s):
            y = f.inst(s.ops[0])
            return y is not None and y.op == "add" and y.ops[1][0] == "c" and y.ops[1][1] == "1"
        return bool(ini) and all(s.ops[0][0] == "c" and s.ops[0][1] == "0" for s in ini) and len(inc) == 1 and plus1(inc[0])
    if x.op != "phi" or x.bb != h: return False
    for v, pb in f.phi_inc(x):
        if pb in body:
            y = f.inst(strip(f, v))
            if y is None or y.op != "add" or not (("v", x.i) in (strip(f, y.ops[0]), y.ops[0])) or y.ops[1][0] != "c" or y.ops[1][1] != "1": return False
        elif not (v[0] == "c" and v[1] == "0"): return False
    return True
