"""A04: failure reports of internal operations are never dropped.
Every call of an operation that reports failure is explored in the world where it fails: what it was to deliver is not
used, a function that reports failure itself reports it, and the report influences what happens next."""
import re
from .. import ir, gmp
from ..ir import short, Broken
from ..world import World

FOLD = "function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)"
ONEP = "always-inline," + FOLD + "," + FOLD
CAST = ("zext", "sext", "trunc", "freeze")

class Op:
    """fails: results that mean failure; out: arguments delivered; ok: is this integer a failure result?"""
    def __init__(s, kind, fails, out=(), bad=lambda v: v != 0): s.kind = kind; s.fails = fails; s.out = out; s.bad = bad
NZ = (-1, 1)
neg = lambda v: v < 0
OPS = [
    (re.compile(r"^bqfc_(deserialize|decompr)$"), Op("form coding", NZ, (0, 1))),
    (re.compile(r"^bqfc_(serialize|serialize_only|deserialize_only|compr)$"), Op("form coding", NZ, (0,))),
    (re.compile(r"^bqfc_(export|verify_canon)$"), Op("form coding", NZ)),
    (re.compile(r"^bqfc_get_compr_size$"), Op("form coding", (-1,), (), lambda v: v <= 0)),
    (re.compile(r"^hw_proof_wait_value$"), Op("waiting for a value", NZ)),
    (re.compile(r"^__gmpz_set_str$"), Op("parsing a number", (-1,), (0,))),
    (re.compile(r"^(vdf_socket_read|recv)$"), Op("socket read", (-1, 0), (), lambda v: v <= 0)),
    (re.compile(r"^read_data$"), Op("socket read", (-1, 0), (), lambda v: v <= 0)),
    (re.compile(r"^(vdf_socket_write|send)$"), Op("socket write", (-1,), (), neg)),
    (re.compile(r"^(vdf_socket_set_nonblock|connect|fcntl|ioctl)$"), Op("socket set-up", (-1,), (), neg)),
    (re.compile(r"^thread_state::(fence|advance)$"), Op("fence", (0,), (), lambda v: v == 0)),
    (re.compile(r"^square_state_type::(call_phase|phase_\d_(master|slave))$"), Op("phase", (0,), (), lambda v: v == 0)),
    (re.compile(r"^gcd_results_type::get_entry$"), Op("table read", (0,), (3,), lambda v: v == 0)),
    (re.compile(r"^gcd_unsigned$"), Op("gcd", (0,), (), lambda v: v == 0)),
    (re.compile(r"^(asm_code::)?asm_(avx2|cel)_func_gcd_unsigned$"), Op("gcd code", (1, -1))),
    (re.compile(r"^square_state_type::assign$"), Op("validated assignment", (0,), (), lambda v: v == 0)),
]
ASIO = re.compile(r"^(?:unsigned long )?boost::asio::(read|read_some|write)<|::(read_some|receive)<")
# numbers freshly initialised in a constructor keep the value 0 when the text does not parse; 0 is refused where it is used
EXEMPT = re.compile(r"^(integer|mpz)::")
PHASEISH = re.compile(r"^square_state_type::(call_phase|phase_\d_(master|slave))$")

def op(i):
    if not i.is_call() or not i.callee: return None
    sh = short(i.dem)
    for r, o in OPS:
        if r.match(sh):
            if i.ty == "void": return None
            return o
    if asioread(i): return AREAD
    return None
AREAD = Op("socket read", (None,))
def asioread(i):
    return bool(re.search(r"boost::asio::read<|::read_some<|::receive<", i.dem)) and "error_code&" in i.dem.split("::enable_if")[0] + i.dem and errarg(i) is not None
def errarg(i):
    from ..world import params
    ps = params(i.dem)
    if ps is None: return None
    off = len(i.args) - len(ps)
    for k, t in enumerate(ps):
        if t.strip().endswith("error_code&") and "const" not in t and 0 <= off: return i.args[k + off]
    return None

UNITS = ("vdf_client_nd", "fastvdf", "bqfc", "hw_proof", "hw_client")

def run(R):
    R.rule("A04.examined", "the report of every operation that can fail decides a branch, or is handed on", floor=30)
    R.rule("A04.outputs", "in the world where the operation fails, what it was to deliver is not used", floor=30)
    R.rule("A04.passed", "a function that reports failure itself reports it when an operation it depends on failed", floor=15)
    seen = set()
    for tu in UNITS: unit(R, tu, seen)
    R.assume_("the hardware register interface (ftdi bus transfers) and the parsing inside the big-integer constructors are not among the operations judged; a constructor that cannot parse leaves 0, which the range checks of the discriminant refuse")

def unit(R, tu, seen, only=None):
    G = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    direct = {n for n, f in G.funcs.items() if f.blocks and isrepo(f) and any(op(i) for i in f.calls())}
    direct = {n for n in direct if not EXEMPT.match(short(G.funcs[n].dem))}
    if not direct: raise Broken("no status-reporting call in " + tu)
    isop = lambda f: any(r.match(short(f.dem)) for r, o in OPS)
    # helpers that hand a report on under another name are inlined into their callers
    hand = {n for n in direct if not isop(G.funcs[n]) and G.funcs[n].ret in ("i1", "i8", "i32", "i64")}
    roots = set(direct)
    ch = True
    while ch:
        ch = False
        for n, f in G.funcs.items():
            if n in roots or not isrepo(f) or not f.blocks: continue
            if any(i.callee in hand for i in f.calls()):
                roots.add(n); ch = True
                if f.ret in ("i1", "i8", "i32", "i64") and not isop(f) and returns(f, hand): hand.add(n)
    # a lambda called where it is written is examined there, with what it captures
    called = {i.callee for n, f in G.funcs.items() if f.blocks and isrepo(f) for i in f.calls() if i.callee != n}
    inner = {n for n in roots if "::local" in short(G.funcs[n].dem) and n in called}
    ch = True
    while ch:
        up = {n for n, f in G.funcs.items() if f.blocks and isrepo(f) and n not in roots and any(i.callee in inner for i in f.calls())}
        ch = bool(up); roots |= up; inner |= {n for n in up if "::local" in short(G.funcs[n].dem) and n in called}
    roots -= inner
    M = ir.view_if(tu, lambda f, m, d: m in roots, lambda f, m, d: any(r.match(short(d)) for r, o in OPS) or not inlinable(G, m, hand, direct), passes=ONEP)
    R.saw("units", tu)
    for n in sorted(roots):
        f = M.funcs.get(n)
        if f is None or not f.blocks: continue
        for i in f.calls():
            o = op(i)
            if o is None or only is not None and not only(i): continue
            w = i.where()
            if not w.startswith("src/"): continue
            site(R, M, f, i, o, seen)

def isrepo(f): return bool(f.file) and ir.rel(f.file).startswith("src/")
def returns(f, hand):
    """f returns (something computed from) the result of a function in hand"""
    for t in f.all():
        if t.op == "ret" and t.ops:
            todo = [t.ops[0]]; s = set()
            while todo:
                v = todo.pop()
                i = f.inst(v)
                if i is None or i.i in s: continue
                s.add(i.i)
                if i.is_call():
                    if i.callee in hand: return True
                    continue
                todo += list(i.ops)
    return True
def inlinable(G, m, hand, direct):
    """what is examined inside its caller: handing helpers, lambdas, and small functions without operations of their own"""
    f = G.funcs.get(m)
    if f is None: return False
    if m in hand or "::local" in short(f.dem): return True
    if m in direct or EXEMPT.match(short(f.dem)) or "boost::system::" in f.dem.split("(")[0]: return False
    return len(list(f.all())) < 60 and not f.loops()

def flows(f, i):
    """the report reaches a decision or leaves the function"""
    todo = [("v", i.i)]; s = set(); slots = set()
    while todo:
        v = todo.pop()
        if v in s: continue
        s.add(v)
        for u in f.all():
            if u.op in ("br", "switch", "ret") and v in u.ops: return True
            if u.op == "store" and u.ops[0] == v:
                b, o = f.base_off(u.ops[1]); a = f.inst(b)
                if a is not None and a.op == "alloca":
                    if b not in slots:
                        slots.add(b)
                        for l in f.all():
                            if l.op == "load" and f.base_off(l.ops[0])[0] == b: todo.append(("v", l.i))
                            if l.is_call() and b in [f.base_off(x)[0] for x in l.args] and not l.callee.startswith("llvm.") if l.callee else False: return True
                else: return True
            if u.op in CAST + ("icmp", "phi", "select", "or", "and", "xor", "add", "sub", "insertvalue") and v in [x for x in u.ops] + [q for q, _ in (f.phi_inc(u) if u.op == "phi" else [])]: todo.append(("v", u.i))
            if u.is_call() and v in u.args and not fmtish(u): return True
    return False
def fmtish(u):
    return bool(u.callee) and bool(re.search(r"printf|perror|operator<<|fprintf|basic_ostream|log", u.dem))

def container(f, v):
    """the object a data pointer belongs to"""
    for _ in range(6):
        b, o = f.base_off(v); i = f.inst(b)
        if i is not None and i.is_call() and i.args and re.search(r"::(data|begin|front|c_str|operator\[\]|at)(\(|$)", i.dem.split("(")[0] + "("): v = i.args[0]; continue
        return b, o
    return f.base_off(v)

def buffer(f, i):
    """memory a boost read delivers into"""
    out = []
    for a in i.args:
        b, o = f.base_off(a); j = f.inst(b)
        cands = []
        if j is not None and j.op == "alloca":
            for u in f.all():
                if u.op == "store" and f.base_off(u.ops[1])[0] == b: cands.append(u.ops[0])
                if u.is_call() and "boost::asio::buffer" in u.dem and u.args and f.base_off(u.args[0])[0] == b: out.append(container(f, u.args[1]))
        cands.append(a)
        for c in cands:
            todo = [c]; k = 0
            while todo and k < 20:
                k += 1; c = todo.pop(); j = f.inst(c)
                if j is None: continue
                if j.is_call() and "boost::asio::buffer" in j.dem: out.append(container(f, j.args[0]))
                elif j.op in ("extractvalue", "insertvalue"): todo += [x for x in j.ops if x[0] == "v"]
    return [x for x in out if x[0] is not None and x[0][0] in ("v", "a", "g")]

class Fail(World):
    def __init__(s, M, f, site, o, val, outs):
        super().__init__(f); s.M = M; s.site = site; s.o = o; s.value = val; s.outs = outs
        s.vals = {("v", site.i)}
        ch = True
        while ch:
            ch = False
            for i in f.all():
                if i.op in CAST and i.ops[0] in s.vals and ("v", i.i) not in s.vals: s.vals.add(("v", i.i)); ch = True
        s.used = {}; s.rets = []; s.span = 16; s.sock = None; s.readers = (); s.early = False
        if short(site.dem) == "read_data":
            b, off = f.base_off(site.args[1]); m = next((m for m in M.structs.get("vdf_conn", {"members": []})["members"] if m["name"] == "read_buf"), None)
            if m is None: raise Broken("vdf_conn::read_buf not found")
            s.outs = [(b, (off or 0) + m["off"])]; s.span = m["size"]; s.conn = b
            s.readers = {n for n, g in M.funcs.items() for l in g.all() if l.op == "load" and any(x == "vdf_conn::read_buf" for x in g.fields_of(l.ops[0]))} | \
                {n for n, g in M.funcs.items() if short(g.dem) == "handle_iters"}
        if o.kind == "socket set-up" and site.args:
            l = f.inst(site.args[0])
            if l is not None and l.op == "load": s.sock = f.base_off(l.ops[0])
        s.err = f.base_off(errarg(site)) if o is AREAD else None
        D = f.dom()
        s.zero = set()
        for i in f.calls():
            if i.callee and (i.callee.startswith("llvm.memset") or i.callee == "memset") and i.args[1][0] == "c" and int(i.args[1][1]) == 0: s.zero.add(container(f, i.args[0])[0])
    def start(s): return {"f": 0}
    def isout(s, v, width=1):
        b, o = container(s.f, v)
        for ob, oo in s.outs:
            if b != ob: continue
            j = s.f.inst(b)
            if b[0] == "g" or j is not None and j.op == "alloca": return (b, o)
            if o is not None and oo is not None and oo <= o < oo + s.span: return (b, o)
            g = s.f.inst(v)
            if o is None and s.span > 16 and g is not None and g.op == "getelementptr" and s.f.base_off(g.ops[0]) == (ob, oo): return (b, o)
            continue
        return None
    def answer(s, i, mem, kn):
        if i is s.site:
            if mem["f"]: return []
            return [(s.value & 0xffffffffffffffff if s.value is not None and s.value >= 0 else (s.value & (2 ** 32 - 1) if s.value is not None else None) if i.ty == "i32" else s.value & (2 ** 64 - 1) if s.value is not None else None, {"f": 1})]
        if not i.is_call(): return None
        if not mem["f"]:
            # before the failure, the operations answer success
            o = op(i) if s.early else None
            if o is None or o is AREAD: return None
            return [(next(v for v in (0, 1) if not o.bad(v)), mem)]
        sh = short(i.dem)
        if "error_code" in i.dem and re.search(r"(^|::)operator[!=]=$", sh) and s.err is not None and len(i.args) == 2:
            bs = [s.f.base_off(a) for a in i.args]
            if s.err in bs:
                x = bs[1 - bs.index(s.err)][0]
                if any(u.is_call() and re.search(r"error_code::error_code\(\)", u.dem) and u.args and s.f.base_off(u.args[0])[0] == x for u in s.f.all()):
                    return [(int("operator!=" in sh), mem)]
        if s.err is not None and i.args and s.f.base_off(i.args[0]) == s.err:
            if sh.endswith(("error_code::operator bool", "error_code::failed")): return [(1, mem)]
            if sh.endswith("error_code::value"): return [(1, mem)]
        if sh in ("strncmp", "memcmp", "bcmp", "strcmp") and any(s.isout(a) for a in i.args):
            if all((s.isout(a) or ("",))[0] in s.zero for a in i.args[:2] if s.isout(a)): return [(1, mem)]
        return None
    def at(s, i, mem):
        if not mem["f"]: return
        if i.op == "ret": return
        if i.op in ("add", "sub", "mul", "getelementptr", "shl"):
            ops = list(i.ops) + [tuple(x[0]) for x in i.d.get("voff", [])]
            if s.value != 0 and any(tuple(v) in s.vals for v in ops) and s.o.kind.startswith("socket"): s.used.setdefault("count", i)
        if i.op == "load" and s.isout(i.ops[0]): s.used.setdefault("read", i)
        if i.is_call():
            sh = short(i.dem)
            if s.o.kind == "waiting for a value" and sh == "hw_proof_value_at" and s.site.args[1] in i.args: s.used.setdefault("value", i)
            if i.callee and (i.callee.startswith("llvm.") and not i.callee.startswith(("llvm.memcpy", "llvm.memmove"))): return
            if "::~" in i.dem or sh in ("free", "memset", "operator delete", "operator delete[]", "boost::asio::buffer"): return
            if sh in ("strncmp", "memcmp", "bcmp", "strcmp") and any(s.isout(a) for a in i.args) and all((s.isout(a) or ("",))[0] in s.zero for a in i.args[:2] if s.isout(a)): return
            ro = gmp.roles(i)
            if ro is not None:
                if any(k in "bi" and s.isout(v) for v, k in ro): s.used.setdefault("read", i)
                return
            if s.o is AREAD and op(i) is AREAD and i is not s.site: s.used.setdefault("next", i)
            if s.sock is not None and i.args and (op(i) or Op("", ())).kind.startswith("socket"):
                l = s.f.inst(i.args[0])
                if l is not None and l.op == "load" and s.f.base_off(l.ops[0]) == s.sock: s.used.setdefault("read", i)
            if i.callee in s.readers and any(s.f.base_off(a) == (s.conn, 0) for a in i.args): s.used.setdefault("read", i)
            k0 = 1 if i.callee and i.callee.startswith("llvm.mem") else 0
            if any(s.isout(a) for a in i.args[k0:]):
                o2 = op(i)
                if o2 is not None and all(k in o2.out for k, a in enumerate(i.args) if s.isout(a)): return
                s.used.setdefault("read", i)
    def step(s, i, mem, e):
        if i.op == "ret":
            if mem["f"]: s.rets.append((i, s.val(i.ops[0], e) if i.ops else None))
            return []
        return super().step(i, mem, e)

def site(R, M, f, i, o, seen):
    w = i.where(); sh = short(i.dem) if o is not AREAD else "boost::asio::read"
    key = (short(f.dem), w, sh, i.idx if f.short.startswith("bqfc") else 0)
    where = "%s in %s" % (sh, short(f.dem))
    if o is not AREAD and not EXEMPT.match(short(f.dem)):
        ex = flows(f, i) or counted(f, i, o)
        rep(R, seen, "A04.examined", ex, w, "the report of %s %s" % (where, "is examined" if ex else "is dropped"), where)
    outs = []
    if o is AREAD: outs = buffer(f, i)
    else: outs = [container(f, i.args[k]) for k in o.out if k < len(i.args)]
    sret = {("a", k) for k, p in enumerate(f.params) if p.get("sret")}
    own = next((q for r, q in OPS if r.match(short(f.dem))), None)
    used = {}; rets = []
    for v in o.fails:
        W = Fail(M, f, i, o, v, outs); W.run(i.bb)
        for k, u in W.used.items(): used.setdefault(k, u)
        rets += [(t, x) for t, x in W.rets]
        if own is not None and not isinstance(o.fails[0], type(None)) and i.bb != 0:
            W = Fail(M, f, i, o, v, outs); W.early = True; W.run(0)
            rets += [(t, x) for t, x in W.rets]
    if o is AREAD and not outs: raise Broken("destination of a read in %s not found" % short(f.dem))
    msg = {"read": "what %s was to deliver is used although it failed", "count": "the failure code of %s is used as a number of bytes", "value": "the value waited for by %s is used although the wait failed", "next": "reading goes on although %s failed"}
    for k, u in used.items(): rep(R, seen, "A04.outputs", False, u.where(), msg[k] % where, where + k)
    if not used and any(b in sret for b, _ in outs) and rets:
        rep(R, seen, "A04.outputs", False, w, "the object %s was to fill is returned although it failed" % where, where + "sret"); used["sret"] = i
    if not used and o is AREAD and any(x is None for t, x in rets):
        rep(R, seen, "A04.outputs", False, w, "%s returns normally although its read failed" % short(f.dem), where + "ret"); used["ret"] = i
    if not used: rep(R, seen, "A04.outputs", True, w, "nothing %s delivers is used when it fails" % where, where)
    if own is not None and (own.kind == o.kind or own.kind in ("phase", "table read", "gcd") or o.kind == "gcd code" or o.kind == "form coding"):
        bad = [t for t, x in rets if x is not None and not own.bad(sgn(x, f.ret))]
        rep(R, seen, "A04.passed", not bad, (bad[0] if bad else i).where(), "%s %s" % (short(f.dem), "reports failure when %s fails" % sh if not bad else "reports success although %s failed" % sh), where)

def sgn(x, ty):
    w = int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else 32
    if w == 1: return x & 1
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) & 1 else x

def counted(f, i, o):
    """the validated assignment also reports through the count it writes"""
    if o.kind != "validated assignment" or len(i.args) < 5: return False
    b = f.base_off(i.args[4])[0]
    return any(l.op == "load" and f.base_off(l.ops[0])[0] == b for l in f.all())

def rep(R, seen, rule, ok, where, text, key):
    k = (rule, ok, where, key)
    if k in seen: return
    seen.add(k)
    R.check(rule, ok, where, text, inst="%s %s" % (where, text), key=key)
