"""S01: messages to the timelord are sent whole, under one hold of the socket lock, with the right length prefix."""
import re
from .. import ir, locks, threads
from ..ir import Broken, short
from ..order import Order
from ..threads import last
from .p01 import Ctx
from .s02 import WRITE, is_write
from .s04 import owns_for

TOBYTES = re.compile(r"^Int(16|32|64)ToBytes$")
PARTIAL = re.compile(r"::(write_some|async_write_some|send|async_send)\b|transfer_at_least|transfer_exactly|async_write<")
SIZE = ("size", "length")
DATA = ("c_str", "data", "begin", "front")

def run(R):
    R.rule("S01.lock", "every write to the timelord socket that can happen while proving threads exist is made with the socket lock held, the same lock everywhere", floor=2)
    R.rule("S01.hold", "a proving thread sends all parts of its message within one hold of the lock", floor=3)
    R.rule("S01.whole", "each part is written by an operation that writes all of it", floor=3)
    R.rule("S01.prefix", "a length prefix is the size of exactly the data sent after it", floor=3)
    R.rule("S01.hw", "the hardware client writes all of each message, and its length prefix is the number of bytes it writes", floor=2)
    C = Ctx("vdf_client"); M = C.M; L = C.L; O = Order(C)
    R.saw("units", "vdf_client")
    sites = [(f, i) for f in M.funcs.values() for i in f.calls() if is_write(f, i)]
    for f, i in sites: R.saw("socket writes", "%s %s" % (i.where(), f.short))
    mw = O.may(is_write)
    writers = {n for n in L.entries if n in mw}
    if not writers: raise Broken("no thread entry writes to a socket")
    start = lambda f, i: L.is_thread_start(i) and bool(L.thread_bodies(f, i) & writers)
    conc = concurrent(C, O, sites, writers, start)
    common = None
    for f, i in conc:
        h = {x for x in L.held(f, i) if lockname(M, x)}
        if h: common = h if common is None else common & h
    lock = sorted(common)[0] if common else None
    for f, i in conc:
        h = L.held(f, i)
        R.check("S01.lock", lock is not None and lock in h, i.where(), "%s writes to the socket without holding %s%s: its bytes can land inside another thread's message" % (f.short, lock or "a lock all writers share", " (holds %s)" % ", ".join(sorted(h)) if h else ""),
                inst="%s %s holds %s" % (i.where(), f.short, lock), key="%s unlocked write" % f.short)
    onw = C.reach(writers)
    for n in sorted(onw & mw):
        f = M.funcs[n]
        x = split(f, O, L, lock) if lock else None
        R.check("S01.hold", x is None, (x or f.blocks[0].insts[0]).where(), "%s releases %s between two parts of one message" % (f.short, lock), inst="%s sends in one hold" % f.short, key="%s splits" % f.short)
    for f, i in sites:
        whole = not PARTIAL.search(i.dem) or "::" in i.dem and PARTIAL.search(i.dem).group(0).startswith("::") and any(i.bb in b for b in f.loops().values())
        R.check("S01.whole", whole, i.where(), "%s may write only a part of its data (%s)" % (f.short, last(i.dem)), inst="%s %s" % (i.where(), f.short), key="%s partial" % f.short)
    prefix(R, C, O, writers)
    hw(R)
    R.assume_("boost::asio::write returns normally only after everything was written (its documentation)")

def lockname(M, x):
    """a mutex all threads share: not a local object, not thread-local"""
    if x.startswith("?"): return False
    for g, d in M.globals.items():
        if M.gname(g) == x and d.get("tls"): return False
    return True

def concurrent(C, O, sites, writers, start):
    """write sites that can run while a proving thread exists"""
    onw = C.reach(writers); r = []
    for f, i in sites:
        if f.name in onw: r.append((f, i)); continue
        me = lambda g, y, i=i, f=f: g.name == f.name and y.i == i.i
        hit = False
        for g in C.M.funcs.values():
            if hit: break
            ss = [j for j in g.calls() if start(g, j) or any(owns_for(C.M.funcs[t]) for t in C.L.targets(j) & O.may(start))]
            for s in ss:
                if O.reach_without(g, O.nxt(s, True), None, lambda h, y: O.mayhit(h, y, me), exc=True) is not None: hit = True; break
        if hit: r.append((f, i))
    return r

def split(f, O, L, lock):
    """a write reached after another one although the lock was released in between"""
    for i in f.calls():
        if not O.mayhit(f, i, is_write) or L.is_thread_start(i): continue
        st = [(b, k, lock not in L.held(f, i) or None) for b, k in O.nxt(i)]; seen = set()
        st = [(b, k, bool(r)) for b, k, r in st]
        while st:
            b, k, rel = st.pop()
            if (b, k, rel) in seen: continue
            seen.add((b, k, rel))
            blk = f.blocks[b]
            for j in blk.insts[k:]:
                if j.is_call() and j.i != i.i or j.is_call():
                    if rel and O.mayhit(f, j, is_write) and not L.is_thread_start(j): return j
                if lock not in L.held(f, j): rel = True
            t = blk.term
            for z in blk.succ:
                if t.op == "invoke" and z == t.d["unw"] and z != t.d["norm"]: continue
                st.append((z, 0, rel))
    return None

# ---- length prefixes
def strip(f, v): return threads.strip(f, v)

def obj(f, v, depth=0):
    """identity of the object a pointer designates: base and byte offset; data pointers of a container are its identity"""
    b, off = f.base_off(v)
    i = f.inst(b)
    if i is not None and i.is_call() and last(i.dem).split("[")[0] in DATA and i.args and off in (0, None) and depth < 6: return obj(f, i.args[0], depth + 1)
    if i is not None and i.is_call() and last(i.dem).split("[")[0] == "operator[]" and len(i.args) > 1 and i.args[1][0] == "c" and i.args[1][1] == "0": return obj(f, i.args[0], depth + 1)
    if i is not None and i.is_call() and last(i.dem).split("[")[0] == "operator*" and i.args: return obj(f, i.args[0], depth + 1)
    return (b, off)

def sizeof(f, v):
    """container whose size the value is"""
    i = f.inst(strip(f, v))
    if i is not None and i.is_call() and last(i.dem).split("[")[0] in SIZE and i.args: return i, obj(f, i.args[0])
    return None

def isconst(i, k):
    """argument k of the call is not modified by it"""
    if k == 0 and i.dem.endswith(" const"): return True
    if k == 0 and last(i.dem).split("[")[0] in SIZE + DATA + ("empty", "operator[]", "capacity", "end", "cbegin", "cend"): return True
    if short(i.dem).split("::")[-1].startswith("~"): return True
    if "buffer" in short(i.dem): return True
    a = argtypes(i.dem)
    member = len(a) < len(i.args)
    j = k - (len(i.args) - len(a)) if member else k
    if 0 <= j < len(a): return "const" in a[j] and "&" in a[j] or not re.search(r"[&*]", a[j])
    return False

def argtypes(d):
    k = d.rfind(")")
    depth = 0; e = k
    while k >= 0:
        if d[k] == ")": depth += 1
        elif d[k] == "(":
            depth -= 1
            if depth == 0: break
        k -= 1
    s = d[k + 1:e]; r = []; cur = ""; lv = 0
    for c in s:
        if c in "<(": lv += 1
        elif c in ">)": lv -= 1
        if c == "," and lv == 0: r.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): r.append(cur.strip())
    return r

def samedata(f, a, b):
    """containers a and b hold the same bytes: one is a copy of the other"""
    if a == b: return True
    for i in f.calls():
        if not i.callee or len(i.args) < 2: continue
        o = [obj(f, x) for x in i.args]
        if o[0] == b and a in o[1:] and (short(i.dem).startswith("BytesToStr") or last(i.dem).split("[")[0] in ("basic_string", "vector", "string")): return True
    return False

def prefix(R, C, O, writers):
    inl = C.reach(writers) & O.may(lambda f, i: is_write(f, i) or bool(i.callee) and bool(TOBYTES.match(short(i.dem))))
    inl = {n for n in inl if n not in writers and not TOBYTES.match(C.M.funcs[n].short)}
    # the arithmetic side is left out
    mw = O.may(is_write)
    inl = {n for n in inl if n in mw or any(g.name in mw for g, j in O.callers().get(n, ()))}
    V = ir.view_if("vdf_client", lambda file, m, d: m in writers, lambda file, m, d: m not in inl, passes="always-inline,function(sroa<modify-cfg>)")
    for n in sorted(writers):
        f = V.funcs.get(n)
        if f is None: raise Broken("no view of " + n)
        bufs = [i for i in f.calls() if i.callee and short(i.dem) == "boost::asio::buffer"]
        enc = [i for i in f.calls() if i.callee and TOBYTES.match(short(i.dem))]
        first = 0
        for b in bufs:
            o = obj(f, b.args[0])
            es = [e for e in enc if obj(f, e.args[0]) == o]
            if not es: continue
            # the encoding that is in the buffer when it is sent
            es = [e for e in es if reaches(f, e, b, {x.i for x in es} - {e.i})]
            nb = bufs_after(f, b, bufs)
            want = bufsize(f, b)
            for e in es:
                bits = int(TOBYTES.match(short(e.dem)).group(1)); first += 1
                sz = sizeof(f, e.args[1])
                R.check("S01.prefix", want == bits // 8, b.where(), "%s sends %s of the %d bytes of its length prefix" % (f.short, want, bits // 8), inst="%s: prefix of %d bytes" % (f.short, bits // 8), key="%s prefix width" % f.short)
                if sz is None:
                    R.bad("S01.prefix", e.where(), "%s: the length prefix is not the size of what is sent" % f.short, "%s prefix" % f.short); continue
                if not nb: R.bad("S01.prefix", b.where(), "%s sends nothing after its length prefix" % f.short, "%s prefix" % f.short); continue
                for d in nb:
                    ds = bufsize(f, d)
                    good = samedata(f, sz[1], obj(f, d.args[0])) and (ds == "all" or isinstance(ds, tuple) and ds == obj(f, d.args[0]))
                    R.check("S01.prefix", good, e.where(), "%s: the length prefix is not the size of the data sent next (%s)" % (f.short, d.where()), inst="%s: prefix is the size of what is sent at %s" % (f.short, d.where()), key="%s prefix" % f.short)
                    w = changed(f, sz[0], d, {sz[1], obj(f, d.args[0])})
                    R.check("S01.prefix", w is None, (w or d).where(), "%s changes the data after it took its size for the length prefix" % f.short, inst="%s: data unchanged after its size was taken" % f.short, key="%s prefix stale" % f.short)
        if not first:
            # prefix and data in one buffer
            ok = False
            for e in enc:
                sz = sizeof(f, e.args[1])
                if sz is None: continue
                for b in bufs:
                    m = obj(f, b.args[0])
                    app = lambda o: any(i.callee and i.args and obj(f, i.args[0]) == m and o in [obj(f, x) for x in i.args[1:]] for i in f.calls())
                    if app(obj(f, e.args[0])) and app(sz[1]) and bufsize(f, b) in ("all", m): ok = True
            R.check("S01.prefix", ok, f.blocks[0].insts[0].where(), "%s sends no length prefix that is the size of the data after it" % f.short, inst="%s: prefix in the data" % f.short, key="%s prefix" % f.short)
            R.check("S01.prefix", ok, f.blocks[0].insts[0].where(), "no prefix", key="%s prefix" % f.short)
        # sizes announced inside the message
        for e in enc:
            sz = sizeof(f, e.args[1])
            if sz is None or any(obj(f, e.args[0]) == obj(f, b.args[0]) and reaches(f, e, b, {x.i for x in enc if obj(f, x.args[0]) == obj(f, e.args[0])} - {e.i}) for b in bufs): continue
            u = nextuse(f, e, obj(f, e.args[0]))
            v = [nextuse(f, x, None, u_base(f, x)) for x in u]
            good = bool(u) and all(any(any(sz[1] == obj(f, a) for a in y.args) for y in ys) and all(any(sz[1] == obj(f, a) for a in y.args) for y in ys) for ys in v)
            R.check("S01.prefix", good, e.where(), "%s: a size written into the message is not followed by the data of that size" % f.short, inst="%s: inner size at %s" % (f.short, e.where()), key="%s inner size" % f.short)

def u_base(f, x): return obj(f, x.args[0])

def nextuse(f, i, o, into=None):
    """first calls after i that use object o (or append to `into`)"""
    r = []; st = [(i.d["norm"], 0)] if i.op == "invoke" else [(i.bb, i.idx + 1)]; seen = set()
    while st:
        b, k = st.pop()
        if (b, k) in seen: continue
        seen.add((b, k)); blk = f.blocks[b]; stop = False
        for j in blk.insts[k:]:
            if not j.is_call() or not j.callee or not j.args or j.callee.startswith("llvm."): continue
            if o is not None and any(obj(f, a) == o for a in j.args) and not j.dem.endswith(" const") or into is not None and obj(f, j.args[0]) == into and not isconst(j, 0):
                r.append(j); stop = True; break
        if stop: continue
        t = blk.term
        for z in blk.succ:
            if t.op == "invoke" and z == t.d["unw"] and z != t.d["norm"]: continue
            st.append((z, 0))
    return r

def bufsize(f, b):
    """bytes a buffer() call covers: a number, 'all' of its container, or the container whose size it is"""
    if len(b.args) == 1:
        m = re.search(r"\(&\) ?\[(\d+)|std::array<[^,]*, (\d+)", b.dem)
        if m: return int(next(x for x in m.groups() if x))
        return "all"
    v = strip(f, b.args[1])
    if v[0] == "c": return int(v[1])
    s = sizeof(f, v)
    return s[1] if s else None

def walk(f, i, goal, stop):
    st = [(i.d["norm"], 0)] if i.op == "invoke" else [(i.bb, i.idx + 1)]; seen = set(); r = []
    while st:
        b, k = st.pop()
        if (b, k) in seen: continue
        seen.add((b, k)); blk = f.blocks[b]; cut = False
        for j in blk.insts[k:]:
            if goal(j): r.append(j); cut = True; break
            if stop(j): cut = True; break
        if cut: continue
        t = blk.term
        for z in blk.succ:
            if t.op == "invoke" and z == t.d["unw"] and z != t.d["norm"]: continue
            st.append((z, 0))
    return r
def reaches(f, a, b, kill): return bool(walk(f, a, lambda j: j.i == b.i, lambda j: j.i in kill))
def bufs_after(f, b, bufs):
    ids = {x.i for x in bufs}
    return walk(f, b, lambda j: j.i in ids, lambda j: False)
def changed(f, a, b, os):
    """a call between a and b that may change one of the objects"""
    def mod(j):
        if not j.is_call() or not j.callee or j.callee.startswith("llvm."): return False
        return any(obj(f, x) in os and not isconst(j, k) and not isctor_of(f, j, k, os) for k, x in enumerate(j.args))
    for m in walk(f, a, mod, lambda j: j.i == b.i):
        if reaches(f, m, b, set()): return m
    return None
def isctor_of(f, j, k, os):
    """construction of the second object from the first"""
    return k == 0 and any(obj(f, x) in os for x in j.args[1:]) and (short(j.dem).startswith("BytesToStr") or last(j.dem).split("[")[0] in ("basic_string", "vector"))

# ---- hardware client
RAW = ("write", "send", "sendto", "writev", "sendmsg")
def hw(R):
    C = Ctx("hw_client"); M = C.M; O = Order(C)
    R.saw("units", "hw_client")
    raw = lambda f, i: i.callee in RAW
    for f in M.funcs.values():
        for i in f.calls():
            if raw(f, i): R.saw("socket writes", "%s %s" % (i.where(), f.short))
    if not O.may(raw): raise Broken("the hardware client writes nothing")
    # functions that hand a buffer and its size on to write()
    senders = {}
    V = ir.view_if("hw_client", lambda file, m, d: m in O.may(raw) and not helper(C, O, raw, m), lambda file, m, d: not helper(C, O, raw, m), passes="always-inline,function(sroa<modify-cfg>)")
    n = 0
    for f in V.funcs.values():
        if helper(C, O, raw, f.name): continue
        ws = [i for i in f.calls() if raw(f, i)]
        for w in ws:
            n += 1
            e = complete(f, w)
            R.check("S01.hw", e is None, w.where(), "%s: %s" % (f.short, e), inst="%s writes everything it is given" % f.short, key="%s incomplete" % f.short)
        if ws and len(f.params) >= 3: senders[f.name] = f
    if not n: raise Broken("no function of the hardware client writes to the socket")
    lengths(R, C, O, senders)

def helper(C, O, raw, n):
    """thin wrapper around write(): returns its result"""
    f = C.M.funcs.get(n)
    if f is None: return False
    if not any(raw(f, i) for i in f.calls()): return False
    return any(b.term.op == "ret" and b.term.ops and f.inst(strip(f, b.term.ops[0])) is not None and raw(f, f.inst(strip(f, b.term.ops[0]))) for b in f.blocks)

def linear(f, v, depth=0):
    """v as a sum of constants and atoms (integer widths ignored)"""
    v = strip(f, v); i = f.inst(v)
    if v[0] == "c": return {(): int(v[1])}
    if i is None or depth > 20: return {v: 1}
    if i.op in ("add", "sub"):
        a, b = linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1)
        return comb(a, b, 1 if i.op == "add" else -1)
    if i.op == "mul":
        a, b = linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {()}: return {k: w * x.get((), 0) for k, w in y.items()}
        return {v: 1}
    if i.op == "shl" and i.ops[1][0] == "c":
        return {k: w << int(i.ops[1][1]) for k, w in linear(f, i.ops[0], depth + 1).items()}
    if i.op == "getelementptr":
        if len(i.ops) == 2 and i.d.get("sty", i.d.get("ety", "i8")) in ("i8", None): return comb(linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1), 1)
        b, off = f.base_off(v)
        if isinstance(off, int) and b != v: return comb(linear(f, b, depth + 1), {(): off}, 1)
        return {v: 1}
    return {v: 1}
def comb(a, b, k):
    r = dict(a)
    for x, y in b.items(): r[x] = r.get(x, 0) + k * y
    return {x: y for x, y in r.items() if y}

def complete(f, w):
    """None if the function returns only after the bytes written add up to what was to be written"""
    p, n = linear(f, w.args[1]), linear(f, w.args[2])
    loop = [(h, b) for h, b in f.loops().items() if w.bb in b]
    if not loop: return "a short write is not continued"
    h, body = min(loop, key=lambda x: len(x[1]))
    phis = [i for i in f.blocks[h].insts if i.op == "phi"]
    r = ("v", w.i)
    total = comb(p, n, 1)
    upd = {}
    for ph in phis:
        for v, pb in f.phi_inc(ph):
            if pb in body: upd.setdefault(ph.i, []).append((pb, leaves(f, v, body, ph)))
    def subst(e, choice):
        o = {}
        for k, c in e.items():
            if k and k[0] == "v" and k[1] in choice: o = comb(o, {x: y * c for x, y in choice[k[1]].items()}, 1)
            else: o = comb(o, {k: c}, 1)
        return o
    used = [ph for ph in phis if any(k and k[0] == "v" and k[1] == ph.i for k in list(p) + list(n))]
    if not used: return "a short write is not continued from where it ended"
    preds = {pb for ph in used for pb, _ in upd.get(ph.i, [])}
    for pb in preds:
        alts = {ph.i: next(l for q, l in upd[ph.i] if q == pb) for ph in used}
        k = max(len(x) for x in alts.values())
        for j in range(k):
            ch = {a: linear(f, l[min(j, len(l) - 1)]) for a, l in alts.items()}
            if all(c == {("v", a): 1} for a, c in ch.items()): continue     # nothing written, same again
            if subst(total, ch) != total: return "after a short write the position and the remaining size do not advance together"
            if comb(subst(n, ch), n, -1) != {r: -1}: return "after a short write the remaining size is not reduced by what was written"
    # every way out of the loop to a return has nothing remaining
    for b in body:
        for z in f.blocks[b].succ:
            if z in body: continue
            t = f.blocks[b].term
            if not toret(f, z): continue
            if t.op == "br" and len(t.d["succ"]) == 2:
                c = f.inst(t.ops[0]); pol = z == t.d["succ"][0]
                if c is not None and c.op == "icmp":
                    d = comb(linear(f, c.ops[0]), linear(f, c.ops[1]), -1); pr = c.d["pred"]
                    neg = {k: -x for k, x in n.items()}
                    zero = d == n and (pr == "eq" and pol or pr in ("ne", "ugt", "sgt") and not pol) or d == neg and (pr == "eq" and pol or pr in ("ne", "ult", "slt") and not pol or pr in ("uge", "sge") and pol) or d == n and pr in ("ule", "sle") and pol
                    if zero: continue
            return "it can return although a part has not been written"
    return None
def leaves(f, v, body, ph):
    """values a phi chain inside the loop can carry"""
    r = []; st = [v]; seen = set()
    while st:
        x = st.pop(); i = f.inst(x)
        if x in seen: continue
        seen.add(x)
        if i is not None and i.op == "phi" and i.i != ph.i and i.bb in body: st += [y for y, _ in f.phi_inc(i)]
        else: r.append(x)
    return r
def toret(f, z):
    seen = set(); st = [z]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); t = f.blocks[b].term
        if t.op == "ret": return True
        for y in f.blocks[b].succ:
            if t.op == "invoke" and y == t.d["unw"]: continue
            st.append(y)
    return False

def lengths(R, C, O, senders):
    """prefix of a message = bytes handed to the send function after it"""
    ms = {n for n in senders}
    k = 0
    for f in C.M.funcs.values():
        ws = [i for i in f.calls() if i.callee in ms]
        enc = [i for i in f.calls() if i.callee and short(i.dem) == "Int32ToBytes"]
        if not ws or not enc: continue
        LP = f.loops()
        for e in enc:
            eb = f.base_off(e.args[0])
            first = [w for w in ws if f.base_off(w.args[1])[0] == eb[0] and reaches(f, e, w, {x.i for x in ws if x.i != w.i})]
            if len(first) != 1:
                R.bad("S01.hw", e.where(), "%s: the length prefix is not sent first" % f.short, "%s hwprefix" % f.short); continue
            k += 1
            tot = comb(linear(f, first[0].args[2]), {(): 4}, -1)
            good = f.base_off(first[0].args[1]) == eb
            for w in ws:
                if w.i == first[0].i: continue
                inner = [(h, b) for h, b in LP.items() if w.bb in b and first[0].bb not in b]
                if not inner or not everytime(f, *inner[0], w): good = False; break
                tc = trips(f, *inner[0])
                n = linear(f, w.args[2])
                if tc is None or not set(n) <= {()}: good = False; break
                tot = comb(tot, {x: y * n.get((), 0) for x, y in tc.items()}, 1)
            X = linear(f, e.args[1])
            R.check("S01.hw", good and tot == X, e.where(), "%s: the length prefix is not the number of bytes sent after it" % f.short, inst="%s: prefix equals bytes sent" % f.short, key="%s hwprefix" % f.short)
    if not k: R.bad("S01.hw", "src/hw/hw_vdf_client.cpp", "proofs are sent without a length prefix", "no hwprefix")

def everytime(f, h, body, w):
    st = [h]; seen = set()
    while st:
        b = st.pop()
        if b in seen or b == w.bb: continue
        seen.add(b)
        for z in f.blocks[b].succ:
            if f.blocks[b].term.op == "invoke" and z == f.blocks[b].term.d["unw"]: continue
            if z == h: return False
            if z in body: st.append(z)
    return True

def trips(f, h, body):
    """number of rounds of a counted loop"""
    ex = [(b, z) for b in body for z in f.blocks[b].succ if z not in body and toret(f, z) and f.blocks[b].term.op != "invoke"]
    if len(ex) != 1 or ex[0][0] != h: return None
    t = f.blocks[h].term
    c = f.inst(t.ops[0]); pol = ex[0][1] == t.d["succ"][0]
    if c is None: return None
    if c.op == "icmp": d, pr = comb(linear(f, c.ops[0]), linear(f, c.ops[1]), -1), c.d["pred"]
    else: return None
    for ph in f.blocks[h].insts:
        if ph.op != "phi": break
        k = d.get(("v", ph.i))
        if k not in (1, -1): continue
        ini = [v for v, pb in f.phi_inc(ph) if pb not in body]; st = [linear(f, v) for v, pb in f.phi_inc(ph) if pb in body]
        if len(ini) != 1: return None
        steps = [comb(x, {("v", ph.i): 1}, -1) for x in st]
        if any(set(x) - {()} or abs(x.get((), 0)) != 1 for x in steps) or len({x[()] for x in steps}) != 1: return None
        step = steps[0][()]
        rest = comb(d, {("v", ph.i): k}, -1)
        # value of the compared expression at entry; it changes by k*step each round
        e0 = comb(rest, {x: y * k for x, y in linear(f, ini[0]).items()}, 1); dl = k * step
        stay = pr if not pol else {"eq": "ne", "ne": "eq", "ugt": "ule", "sgt": "sle", "ult": "uge", "slt": "sge", "uge": "ult", "sge": "slt", "ule": "ugt", "sle": "sgt"}[pr]
        if stay in ("ne", "ugt", "sgt") and dl == -1: return e0
        if stay in ("ne", "ult", "slt") and dl == 1: return {x: -y for x, y in e0.items()}
        if stay == "sge" and dl == -1: return comb(e0, {(): 1}, 1)
        if stay == "sle" and dl == 1: return comb({x: -y for x, y in e0.items()}, {(): 1}, 1)
        return None
    return None
