"""P08: corruption found by the fast squaring never reaches the result, and every squaring is counted once.
Path-sensitive value numbering of the validated assignment and of the in-batch checks; an account of the iterations
performed along every path of the squaring loop."""
import re
from .. import ir
from ..ir import short, Broken, tuplify
from ..paths import *
from ..world import World

FOLD = "function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)"
ONEP = "always-inline," + FOLD + "," + FOLD
TU = "vdf_client_nd"
CALLS = re.compile(r"^(thread_state::|gcd_results_type.*::get_entry|gcd_unsigned|mpz_impl_set_mul|repeated_square|vdf_original::square|square_state_type::(assign|init|call_phase|phase_\d_(master|slave)|square_state_type|~square_state_type|single_thread_master_first|get_counter_start)$)")
ROOT = re.compile(r"^(square_state_type::(assign|init|phase_0_slave|phase_4_master)|repeated_square\w*)$")
SIGS = {}

def run(R):
    R.rule("P08.assign", "a form leaves the batch only when no corruption was flagged, its leading coefficient is positive, (b*b - D) is exactly divisible by 4a and the quotient is not negative; it is then that form, and the count of valid iterations; otherwise nothing is written and failure is reported", floor=6)
    R.rule("P08.detect", "an iteration counts as valid only when the extended gcd ended with 1 and 0; a failed check flags corruption and fails the phase; a validated c is exact and not negative", floor=4)
    R.rule("P08.batch", "the form of a batch is written only by the validated assignment, and the batch returns the count the assignment reported", floor=4)
    R.rule("P08.fallback", "a batch reported corrupt counts no iterations and is recomputed by the slow algorithm", floor=1)
    R.rule("P08.ledger", "every squaring starts at the number of squarings already performed, and the loop's counter and the published progress equal the number performed", floor=6)
    R.rule("P08.numbering", "the slow and the fast squaring loops report each iteration once, after it is done, under its own number, and perform exactly the requested number", floor=4)
    M = ir.view_if(TU, lambda f, m, d: bool(ROOT.match(short(d))), lambda f, m, d: bool(CALLS.match(short(d))), passes=ONEP)
    F = {}
    for f in M.funcs.values():
        if ROOT.match(short(f.dem)): F.setdefault(short(f.dem), f)
    for n in ("square_state_type::assign", "square_state_type::init", "square_state_type::phase_0_slave", "square_state_type::phase_4_master", "repeated_square_fast_multithread", "repeated_square", "repeated_square_original"):
        if n not in F: raise Broken("function %s not found" % n)
    R.saw("unit", TU)
    assign(R, M, F)
    detect(R, M, F)
    batch(R, M, F)
    ledger(R, M, F)
    numbering(R, M, F)
    R.assume_("asserts are compiled out (release build); the multiplication helper mpz_impl_set_mul computes the product")

# ------------------------------------------------------------------ shared
def hook(S, p, i):
    if not i.is_call(): return None
    sh = short(i.dem)
    if sh == "mpz_impl_set_mul":
        o, a, b = (hdr(S.M, S.obj2(p, x)) for x in i.args[:3])
        a, b = S.mget(p, a), S.mget(p, b)
        p.events.append(("call", i, [], [a, b])); S.mput(p, o, pmul(a, b)); return True
    if sh.startswith("std::basic_ostream") or sh.startswith("std::operator<<") or sh.startswith("std::ostream"):
        p.env[i.i] = ("v", i.i); return True
    if sh in ("thread_state::fence", "thread_state::advance"): p.env[i.i] = ("status", i.i); p.events.append(("status", i)); return True
    if sh.endswith("::get_entry"):   # reads the other thread's table; hands back a pointer into it
        o = S.obj2(p, i.args[3]); p.mem[o] = ("havoc", i.i, o); p.env[i.i] = ("status", i.i); p.events.append(("status", i)); return True
    if sh == "c_thread_state" or "threadlocal" in (i.callee or ""): p.env[i.i] = ("ptr", ("tls", 0), 0); return True
    return None

def rels(p):
    """what is certain on the path, including the signs of numbers whose positive multiples were compared with zero"""
    out = relations(p)
    for o, a, b in list(out):
        if kval(b) == 0 and isinstance(a, tuple) and a[0] == "P" and len(a[1]) == 1 and len(a[1][0][0]) == 1 and a[1][0][1] > 0: out.add((o, a[1][0][0][0], b))
        if kval(b) == 0 and isinstance(a, tuple) and a[0] == "abs" and o in ("eq", "ne"): out.add((o, a[1], b))
    return out

def never(rel):
    """the path's relations contradict each other"""
    return any(o == "eq" and (("ne", a, b) in rel or ("gt", a, b) in rel or ("lt", a, b) in rel) for o, a, b in rel)

_leaf = {}
def leaf(M, o):
    if o not in _leaf:
        from .p09 import leafof
        _leaf[o] = leafof(M, "square_state_type", o)
    return _leaf[o]
def fieldpath(M, cls, o):
    l = leaf(M, o); return l[0] if l else None
def numhdr(M, o):
    """(offset of the containing fixed-size number, offset of its header) or None"""
    l = leaf(M, o)
    if not l: return None
    m = re.search(r"\[(\d+)\]$", l[1]); es = l[3] // int(m.group(1)) if m else l[3]
    for n, st in M.structs.items():
        if n.startswith("mpz<") and st["size"] == es:
            h = [x["off"] for x in st["members"] if x["size"] == 16]
            if h:
                base = o - l[2] + l[2] // es * es
                return base, base + h[0]
    return None
def hdr(M, k):
    """the number header inside a fixed-size number of the shared state"""
    r, o = k
    r0 = r[1] if isinstance(r, tuple) and r and r[0] == "elem" else r
    if r0 != ("a", 0) or o is None: return k
    h = numhdr(M, o)
    return (r, h[1]) if h and o == h[0] else k

def inname(M, t):
    """member of the shared state an input value was read from"""
    if not isinstance(t, tuple) or not t or t[0] != "in": return None
    r, o = t[1], t[2]
    if isinstance(r, tuple) and r and r[0] == "elem":
        if r[1] == ("a", 0) and o is not None: return top(fieldpath(M, "square_state_type", o)), r[2]
        return None
    if r == ("a", 0) and o is not None: return top(fieldpath(M, "square_state_type", o)), ()
    return None
def top(s):
    if s is None: return None
    return ".".join(s.split(".")[:2])

class State(Paths):
    """paths over the shared state: elements of its arrays are (array element, byte offset)"""
    def __init__(s, M, f, once=None, **k):
        s.M = M; s.once = set()
        if once:
            for h, L in f.loops().items():
                if any(i.is_call() and once(short(i.dem)) for b in L for i in f.blocks[b].insts): s.once |= set(L)
        super().__init__(f, **k)
    def block(s, p, b, idx):
        return [] if b in s.once and p.visits.get(b, 0) > 1 else super().block(p, b, idx)
    def step(s, p, i):
        if i.op == "getelementptr" and "voff" in i.d:
            base = s.val(p, i.ops[0])
            if base[0] == "ptr" and base[2] is not None:
                o = base[2] + i.d["coff"]; idx = []
                for x, kk in i.d["voff"]:
                    t = s.val(p, tuplify(x))
                    if t[0] == "k": o += (t[1] - (1 << 64) if t[1] >> 63 else t[1]) * kk
                    else: idx.append((t, kk))
                r = base[1]
                if idx: r = ("elem", r, tuple(sorted(idx, key=repr)))
                p.env[i.i] = ("ptr", r, o); return
        super().step(p, i)
    def load(s, p, r, o, i):
        if i.ty in ("i32", "ptr") and o is not None and p.mem.get((r, o)) is None:
            r0 = r[1] if r and r[0] == "elem" else r
            if r0 == ("a", 0):
                h = numhdr(s.M, o)
                if h and i.ty == "i32" and o == h[1] + 4: return ("msize", s.mget(p, (r, o - 4)))
        return super().load(p, r, o, i)

# ------------------------------------------------------------------ assign
def assign(R, M, F):
    f = F["square_state_type::assign"]; w = "%s:%d" % (ir.rel(f.file), f.line)
    PT = State(M, f, hook=hook, visits=8)
    R.saw("paths", "%s: %d" % (short(f.dem), len(PT.done)))
    n = {0: 0, 1: 0}
    for p in PT.done:
        ev = p.events[-1]
        if ev[0] != "ret": continue
        rel = rels(p)
        if never(rel): continue
        out = [p.mem.get((("a", k), 0)) for k in (1, 2, 3)]
        # a number object given as argument starts with its limb header
        res = p.mem.get((("a", 4), 0)); res = res[1] if res and res[0] == "w" else None
        for q, tr in PT.decide(p.copy(), ev[2], 8):
            n[int(tr)] += 1
            key = "path %s" % ("ok" if tr else "fail")
            if not tr:
                R.check("P08.assign", all(o is None for o in out), w, "a failed validation %s" % ("leaves the form alone" if all(o is None for o in out) else "has already changed the caller's form"), key=key + " form")
                R.check("P08.assign", res is not None and res[0] == "k" and res[1] & (2 ** 64 - 1) == 2 ** 64 - 1, w, "a failed validation %s" % ("reports no count" if res is not None and res[0] == "k" else "does not report ~0"), key=key + " count")
                continue
            if any(o is None for o in out): R.bad("P08.assign", w, "success is reported without the whole form being written", key=key + " form"); continue
            A, B, C = out
            na, nb = inname(M, A), inname(M, B)
            ok = na is not None and na[0] == "phase_start.as" and nb is not None and nb[0] == "phase_start.bs"
            ok = ok and cur(M, A, na[1], "as") and cur(M, B, nb[1], "bs")
            R.check("P08.assign", ok, w, "the form written %s" % ("has the current a and b of the pipeline" if ok else "is not the current a and b of the pipeline"), key=key + " ab")
            if not ok: continue
            ds = {t for pl in terms(p) for t in [pl] if (inname(M, t) or ("",))[0] == "phase_constant.D"}
            D = next(iter(ds), None)
            if D is None: R.bad("P08.assign", w, "the discriminant is not used in the validation", key=key + " D"); continue
            num_ = padd(pmul(B, B), D, -1); den = pmul(pk(4), A)
            ex = exact(rel, p, C, num_, den)
            R.check("P08.assign", ex, w, "the c written %s" % ("is exactly (b*b-D)/4a" if ex else "is not shown to be exactly (b*b-D)/4a"), key=key + " c")
            pos = holds(rel, "gt", A, pk(0))
            R.check("P08.assign", pos, w, "the a written %s" % ("is positive" if pos else "may be zero or negative"), key=key + " a")
            nn = holds(rel, "ge", C, pk(0))
            R.check("P08.assign", nn, w, "the c written %s" % ("is not negative" if nn else "may be negative"), key=key + " c sign")
            cf = flagclear(M, p)
            R.check("P08.assign", cf, w, "success is reported %s" % ("only without a corruption flag" if cf else "although corruption may have been flagged"), key=key + " flag")
            okc = res is not None and res[0] == "ld" and (inname(M, res[1]) or ("",))[0] == "phase_start.num_valid_iterations"
            R.check("P08.assign", okc, w, "the count reported %s" % ("is the number of valid iterations" if okc else "is not the number of valid iterations"), key=key + " count")
    if not n[0] or not n[1]: raise Broken("the validated assignment has no %s path" % ("failing" if not n[0] else "succeeding"))

def cur(M, t, idx, name):
    """the element index is the current one, read from ab_index and used without change"""
    m = member(M, "square_state_type", ["phase_start", name])
    if len(idx) != 1 or m is None or idx[0][1] * 2 != m["size"] or not m["off"] <= t[2] < m["off"] + idx[0][1]: return False
    x = idx[0][0]
    while x[0] in ("sext", "zext"): x = x[1]
    return x[0] == "ld" and (inname(M, x[1]) or ("",))[0] == "phase_start.ab_index"

def terms(p):
    """input numbers mentioned on a path"""
    out = set()
    def go(t):
        if not isinstance(t, tuple): return
        if t and t[0] == "in" and len(t) == 3: out.add(t)
        for x in t: go(x)
    for t in p.mem.values(): go(t)
    for e in p.events:
        for x in e[2:]:
            if isinstance(x, (list, tuple)): go(tuple(x) if isinstance(x, list) else x)
    return out

def flagclear(M, p):
    for t, b in list(p.facts.items()):
        s = str(t)
        for x in loads(t):
            if (inname(M, x[1]) or ("",))[0] == "phase_start.corruption_flag":
                v = {0: None}
                if t[0] == "icmp" and t[3][0] == "k":
                    k = t[3][1]
                    if t[1] == "eq" and b and k == 0 or t[1] == "ne" and not b and k == 0 or t[1] == "eq" and not b and k == 1: return True
                elif t[0] in ("trunc", "ld", "and") and not b: return True
    return False
def loads(t):
    if not isinstance(t, tuple): return
    if t and t[0] == "ld" and len(t) == 3: yield t
    for x in t: yield from loads(x)

def exact(rel, p, C, num_, den):
    for q in ("fdiv", "tdiv", "cdiv"):
        if C[:1] == (q + "_q",) and C[2:4] == (num_, den) and holds(rel, "eq", (q + "_r", 0, num_, den), pk(0)): return True
    if C[0] in ("divexact", "fdiv_q", "tdiv_q", "cdiv_q") and C[2:4] == (num_, den):
        for t, b in p.facts.items():
            if "divisible_p" in str(t)[:200] and t[0] == "icmp" and t[2] == ("call", "divisible_p", num_, den) and (b if t[1] == "ne" else not b): return True
        if any(holds(rel, "eq", (q + "_r", 0, num_, den), pk(0)) for q in ("fdiv", "tdiv", "cdiv")): return True
    pr = pmul(C, den)
    return holds(rel, "eq", pr, num_) or holds(rel, "eq", num_, pr)

# ------------------------------------------------------------------ checks inside the batch
def stored(M, p, name):
    """values stored on the path into a member of the shared state"""
    out = []
    for e in p.events:
        if e[0] == "store" and e[2] == ("a", 0) and e[3] is not None and top(fieldpath(M, "square_state_type", e[3])) == name: out.append((e[1], e[4]))
    return out

def detect(R, M, F):
    f = F["square_state_type::phase_4_master"]; w = "%s:%d" % (ir.rel(f.file), f.line)
    PT = State(M, f, hook=hook, visits=8); R.saw("paths", "%s: %d" % (short(f.dem), len(PT.done)))
    def ends(p, name):
        return {t for t in terms(p) | {x for r in rels(p) for x in r[1:] if x[:1] == ("in",)} if (inname(M, t) or ("",))[0] == "phase_0_master_d.gcd_1_0" and name in (full(M, t) or "")}
    inc = 0; flg = 0
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        rel = rels(p)
        if never(rel): continue
        sa, sb = ends(p, "gcd_1_0.as"), ends(p, "gcd_1_0.bs")
        ok1 = any(holds(rel, "eq", t, pk(1)) for t in sa); ok0 = any(holds(rel, "eq", t, pk(0)) for t in sb)
        bad = any(holds(rel, "ne", t, pk(1)) for t in sa) or any(holds(rel, "ne", t, pk(0)) for t in sb)
        st = stored(M, p, "phase_start.num_valid_iterations"); fl = [v for i, v in stored(M, p, "phase_start.corruption_flag") if v[0] == "k" and v[1] & 1]
        if st:
            inc += 1
            R.check("P08.detect", ok1 and ok0, st[0][0].where(), "an iteration is counted as valid %s" % ("only after its gcd ended with 1 and 0" if ok1 and ok0 else "without its gcd having ended with 1 and 0"), key="counted")
            one = len(st) == 1 and incr(M, st[0][1])
            R.check("P08.detect", one, st[0][0].where(), "the count of valid iterations %s" % ("grows by one" if one else "does not grow by exactly one"), key="by one")
        for q, tr in PT.decide(p.copy(), p.events[-1][2], 8):
            if tr: R.check("P08.detect", bool(st), w, "the last phase succeeds %s" % ("only when it counts the iteration" if st else "without counting the iteration"), key="success counts")
            elif st: R.bad("P08.detect", w, "the last phase counts an iteration and fails", key="fail counts")
            if bad:
                flg += 1
                R.check("P08.detect", not tr and bool(fl), w, "a gcd that did not end with 1 and 0 %s" % ("flags corruption and ends the batch" if not tr and fl else "does not flag corruption"), key="gcd flag")
    if not inc or not flg: raise Broken("the last phase shows no %s path" % ("counting" if not inc else "corruption"))
    f = F["square_state_type::phase_0_slave"]; w = "%s:%d" % (ir.rel(f.file), f.line)
    PT = State(M, f, hook=hook, visits=8, once=lambda n: n.endswith("::get_entry")); R.saw("paths", "%s: %d" % (short(f.dem), len(PT.done)))
    good = 0
    offc = M.field_off("square_state_type", "phase_0_slave_d.c") if hasattr(M, "field_off") else None
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        rel = rels(p)
        if never(rel): continue
        C = [(k, t) for k, t in p.mem.items() if k[0] == ("a", 0) and k[1] is not None and top(fieldpath(M, "square_state_type", k[1])) == "phase_0_slave_d.c" and t[0] != "w"]
        fl = [v for i, v in stored(M, p, "phase_start.corruption_flag") if v[0] == "k" and v[1] & 1]
        if not C: continue
        C = C[0][1]
        neg = holds(rel, "lt", C, pk(0))
        rem = any(o == "ne" and isinstance(a, tuple) and a[:1] in (("fdiv_r",), ("tdiv_r",), ("cdiv_r",)) and kval(b) == 0 for o, a, b in rel)
        A0 = [t for t in terms(p) | {x for r in rel for x in r[1:] if x[:1] == ("in",)} if (inname(M, t) or ("",))[0] == "phase_start.as"]
        zero = any(holds(rel, "eq", t, pk(0)) for t in A0)
        for q, tr in PT.decide(p.copy(), p.events[-1][2], 8):
            if tr and zero: continue    # a form with a=0 is refused by the other thread's gcd and by the validated assignment
            if tr:
                good += 1
                ok = holds(rel, "ge", C, pk(0)) and (C[0] not in ("fdiv_q", "tdiv_q", "cdiv_q") or exact(rel, p, C, C[2], C[3]))
                R.check("P08.detect", ok and not rem, w, "the c of an iteration is used %s" % ("only when it is not negative and its division left nothing over" if ok and not rem else "although it is negative or its division left a remainder"), key="c used")
            if neg or rem: R.check("P08.detect", not tr and bool(fl), w, "an invalid c %s" % ("flags corruption and ends the batch" if fl and not tr else "does not flag corruption"), key="c flag")
    if not good: raise Broken("the slave's first phase shows no succeeding path")

def full(M, t):
    r, o = t[1], t[2]
    if isinstance(r, tuple) and r and r[0] == "elem": r = r[1]
    return fieldpath(M, "square_state_type", o) if r == ("a", 0) and o is not None else None

def incr(M, v):
    return v[0] == "add" and any(x == ("k", 1) for x in v[1:3]) and any(x[0] == "ld" and (inname(M, x[1]) or ("",))[0] == "phase_start.num_valid_iterations" for x in v[1:3])

# ------------------------------------------------------------------ batch
def batch(R, M, F):
    f = F["square_state_type::init"]; w = "%s:%d" % (ir.rel(f.file), f.line)
    PT = State(M, f, hook=hook, visits=80); R.saw("paths", "%s: %d" % (short(f.dem), len(PT.done)))
    if not PT.done: raise Broken("no path through the initialisation")
    seen = set()
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        g = {}
        for (r, o), t in p.mem.items():
            if r == ("a", 0) and o is not None: g.setdefault(top(fieldpath(M, "square_state_type", o)), {})[o] = t
        ab = [t[1] for t in g.get("phase_start.ab_index", {}).values() if t[0] == "w"]
        def word(n):
            x = [t[1] for t in g.get(n, {}).values() if t[0] == "w"]
            return x[0] if x else None
        oks = [("the discriminant", any(t == ("in", ("a", 1), 0) for t in g.get("phase_constant.D", {}).values())),
               ("the count of valid iterations", word("phase_start.num_valid_iterations") == ("k", 0)),
               ("the corruption flag", word("phase_start.corruption_flag") == ("k", 0))]
        for nm, k in (("as", 3), ("bs", 4)):
            c = g.get("phase_start." + nm, {})
            ok = len(ab) == 1 and ab[0][0] == "k"
            if ok:
                lo = min((m["off"] for m in [mm for mm in [member(M, "square_state_type", ["phase_start", nm])] if mm]), default=None)
                sz = None
                m = member(M, "square_state_type", ["phase_start", nm])
                ok = m is not None and c.get(hdr(M, (("a", 0), m["off"] + ab[0][1] * (m["size"] // 2)))[1]) == ("in", ("a", k), 0)
            oks.append(("the starting %s" % nm[0], ok))
        for n, ok in oks:
            if (n, ok) in seen: continue
            seen.add((n, ok))
            R.check("P08.batch", ok, w, "%s of a batch is %s" % (n, "set from the caller" if ok else "not set as given"), key="init " + n)
    for nm in ("repeated_square_fast_multithread", "repeated_square_fast_single_thread"):
        f = F.get(nm)
        if f is None: continue
        w = "%s:%d" % (ir.rel(f.file), f.line)
        for i in f.all():
            if i.op == "store" and f.base_off(i.ops[1])[0] == ("a", 1): R.bad("P08.batch", i.where(), "%s writes the caller's form directly" % nm, key=nm + " store")
            if not i.is_call(): continue
            pos = [k for k, a in enumerate(i.args) if f.base_off(a)[0] == ("a", 1)]
            if not pos: continue
            sh = short(i.dem); ro = gmproles(i)
            if sh == "square_state_type::init":
                ok = [f.base_off(a) for a in i.args] [1:] == [(("a", 2), 0), (("a", 3), 0), (("a", 1), 0), (("a", 1), 16)]
                R.check("P08.batch", ok, i.where(), "%s starts the batch from %s" % (nm, "the caller's form" if ok else "something other than the caller's form"), key=nm + " init")
            elif sh == "square_state_type::assign":
                ok = [f.base_off(a) for a in i.args][1:4] == [(("a", 1), 0), (("a", 1), 16), (("a", 1), 32)]
                R.check("P08.batch", ok, i.where(), "%s hands out %s" % (nm, "the validated form" if ok else "the validated numbers in the wrong place"), key=nm + " assign")
            elif ro is not None:
                wr = any(f.base_off(v)[0] == ("a", 1) and k in "obpIC" for v, k in ro)
                R.check("P08.batch", not wr, i.where(), "%s %s" % (nm, "only reads the caller's form" if not wr else "writes the caller's form itself"), key=nm + " gmp")
            else: R.bad("P08.batch", i.where(), "%s gives the caller's form to %s" % (nm, sh), key=nm + " other")
        def hk(S, p, i):
            if i.is_call() and short(i.dem) == "square_state_type::assign":
                S.mem = None
                o = S.obj2(p, i.args[4]); p.mem[o] = ("w", ("cnt", i.i)); p.env[i.i] = ("status", i.i); p.facts[("assigned",)] = True
                return True
            if i.is_call() and short(i.dem).startswith(("thread_state::", "square_state_type::", "std::")): p.env[i.i] = ("v", i.i); return True
            return hook(S, p, i)
        PT = State(M, f, hook=hk, visits=2, once=lambda n: n == "square_state_type::call_phase"); n = 0
        for p in PT.done:
            e = p.events[-1]
            if e[0] != "ret": continue
            v = e[2]; n += 1
            ok = v[0] == "cnt" or v[0] == "k" and v[1] & (2 ** 64 - 1) == 2 ** 64 - 1 and any(t[0] == "status" and not b for t, b in p.facts.items())
            R.check("P08.batch", ok, w, "%s returns %s" % (nm, "the count the validated assignment reported" if ok else "a count the validated assignment did not report"), key=nm + " ret")
        if not n: raise Broken("no path through " + nm)

def gmproles(i):
    from .. import gmp
    return gmp.roles(i)
def member(M, cls, names, base=0):
    st = M.structs.get(cls)
    if not st: return None
    for m in st["members"]:
        if m["name"] == names[0]:
            m = dict(m, off=m["off"] + base)
            if len(names) == 1: return m
            t = m["type"]
            return member(M, t, names[1:], m["off"]) or member(M, cls + "::" + t, names[1:], m["off"])
    return None

# ------------------------------------------------------------------ the account of iterations
def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items(): r[x] = r.get(x, 0) + k * c
    r = {x: c for x, c in r.items() if c}
    if () in r:
        r[()] &= 2 ** 64 - 1
        if not r[()]: del r[()]
    return r

SQ = {"repeated_square_fast": (1, 4, 5), "repeated_square_fast_multithread": (1, 4, 5), "repeated_square_fast_single_thread": (1, 4, 5), "repeated_square_original": (1, 4, 5), "repeated_square_nudupl": (0, 3, 4)}
SLOW = ("repeated_square_original",)

class Ledger:
    def __init__(s, f, R):
        s.f = f; s.R = R; s.obl = []; s.n = 0
        sq = [i for i in f.calls() if short(i.dem) in SQ]
        if not sq: raise Broken("no squaring calls in the loop")
        loops = f.loops()
        outer = [(len(L), h) for h, L in loops.items() if any(i.bb in L for i in sq)]
        if not outer: raise Broken("the squarings are not in a loop")
        s.head = max(outer)[1]; s.L = loops[s.head]
        for h, L in loops.items():
            if h != s.head and any(i.bb in L for i in sq): raise Broken("squarings inside an inner loop")
        s.form = None
    def lf(s, v, env):
        if v[0] == "c": k = int(v[1]) & (2 ** 64 - 1); return {(): k} if k else {}
        if v[0] == "v":
            if v[1] in env: return env[v[1]]
            i = s.f.inst(v)
            if i.op in ("add", "sub"): return add(s.lf(i.ops[0], env), s.lf(i.ops[1], env), 1 if i.op == "add" else -1)
            if i.op == "freeze": return s.lf(i.ops[0], env)
            if i.op == "mul" and i.ops[1][0] == "c": return {x: (c * int(i.ops[1][1])) for x, c in s.lf(i.ops[0], env).items()}
        return {v: 1}
    def cond(s, v, env):
        if v[0] == "c": return int(v[1]) & 1
        i = s.f.inst(v)
        if i is None: return None
        if v[1] in env and () in env[v[1]] and len(env[v[1]]) == 1: return env[v[1]][()] & 1
        if i.op == "icmp" and all(s.width(o) == 64 for o in i.ops):
            a, b = s.lf(i.ops[0], env), s.lf(i.ops[1], env); p = i.d["pred"]
            d = add(a, b, -1)
            if not d: return int(p in ("eq", "uge", "ule", "sge", "sle"))
            if set(a) <= {()} and set(b) <= {()}:
                from ..world import cmp
                return cmp(p, a.get((), 0), b.get((), 0), 64)
            if p in ("eq", "ne"):
                # a count the batch reported is never ~0 in the world where it succeeded
                for x, y in ((a, b), (b, a)):
                    if y == {(): 2 ** 64 - 1} and len(x) == 1 and list(x.items())[0][1] == 1 and list(x)[0][0] == "R": return int(p == "ne")
        if i.op == "xor" and i.ops[1][0] == "c":
            c = s.cond(i.ops[0], env); return None if c is None else c ^ (int(i.ops[1][1]) & 1)
        if i.op in ("and", "or"):
            a, b = s.cond(i.ops[0], env), s.cond(i.ops[1], env)
            if i.op == "and": return 0 if a == 0 or b == 0 else 1 if a == 1 and b == 1 else None
            return 1 if a == 1 or b == 1 else 0 if a == 0 and b == 0 else None
        return None
    def width(s, o):
        i = s.f.inst(o)
        if i is not None: return width(i.ty)
        if o[0] == "c": return o[2] if len(o) > 2 else 64
        if o[0] == "a": return width(s.f.params[o[1]]["ty"])
        return 64
    def run(s):
        f = s.f; phis = [i for i in f.blocks[s.head].insts if i.op == "phi"]
        s.phis = phis
        env = {i.i: {("phi", i.i): 1} for i in phis}
        s.stack = [(s.head, None, env, {}, None, frozenset())]; s.exits = []; s.backs = []
        seen = set()
        while s.stack:
            b, pr, env, P, cor, vis = s.stack.pop()
            s.n += 1
            if s.n > 200000: raise Broken("too many paths in the squaring loop")
            s.block(b, pr, dict(env), P, cor, vis)
    def block(s, b, pr, env, P, cor, vis):
        f = s.f
        if b in vis: return
        vis = vis | {b}
        if b != s.head or pr is not None:
            new = {}
            for i in f.blocks[b].insts:
                if i.op != "phi": break
                for v, q in f.phi_inc(i):
                    if q == pr: new[i.i] = s.lf(v, env)
            env.update(new)
        s.insts(b, 0, env, P, cor, vis)
    def insts(s, b, k0, env, P, cor, vis):
        f = s.f; I = f.blocks[b].insts
        for k in range(k0, len(I)):
            i = I[k]
            if i.op == "phi": continue
            if i.op == "select" and i.i not in env:
                c = s.cond(i.ops[0], env)
                if c is None and width(i.ty) in (64, 1):
                    for t in (1, 2):
                        e = dict(env); e[i.i] = s.lf(i.ops[t], env); e[i.ops[0][1]] = {(): 1} if t == 1 else {}
                        s.insts(b, k + 1, e, P, cor, vis)
                    return
                if c is not None: env[i.i] = s.lf(i.ops[1 if c else 2], env)
            if i.op in ("store", "call", "invoke"): 
                r = s.event(i, env, P, cor)
                if r is not None:
                    alts = r
                    if len(alts) > 1:
                        for e, p, c in alts: s.insts2(i, b, k + 1, e, p, c, vis)
                        return
                    env, P, cor = alts[0]
        s.flow(b, env, P, cor, vis)
    def insts2(s, i, b, k, e, p, c, vis):
        s.insts(b, k, e, p, c, vis)
    def flow(s, b, env, P, cor, vis):
        t = s.f.blocks[b].term
        if t.op in ("ret", "unreachable", "resume"):
            if t.op == "ret" and cor: s.obl.append(("fallback", t, None))
            return
        if t.op == "invoke": su = [t.d["norm"]]
        elif t.op == "br":
            su = list(t.d["succ"])
            if len(su) == 2 and t.ops:
                c = s.cond(t.ops[0], env)
                if c is not None: su = [su[0] if c else su[1]]
        elif t.op == "switch": su = list({x[1] for x in t.d["cases"]} | {t.d["def"]})
        else: su = list(t.d.get("succ", []))
        for z in set(su):
            e = env
            if t.op == "br" and len(t.d["succ"]) == 2 and len(su) == 2 and t.ops and t.ops[0][0] == "v":
                e = dict(env); e[t.ops[0][1]] = {(): 1} if z == t.d["succ"][0] else {}
                e, P2 = s.equal(t.ops[0], z == t.d["succ"][0], e, P)
            else: P2 = P
            if z == s.head:
                if cor: s.obl.append(("fallback", t, None))
                row = {}
                for i in s.phis:
                    for v, q in s.f.phi_inc(i):
                        if q == b: row[i.i] = add(s.lf(v, e), P2, -1)
                s.obl.append(("back", t, row)); continue
            s.stack.append((z, b, e, P2, cor, vis))
    def equal(s, v, tr, env, P):
        """what an equality decided on an edge says about the amounts"""
        c = s.f.inst(v)
        if c is None or c.op != "icmp" or width(s.f.inst(c.ops[0]).ty if s.f.inst(c.ops[0]) is not None else "i64") != 64: return env, P
        d = add(s.lf(c.ops[0], env), s.lf(c.ops[1], env), -1); p = c.d["pred"]
        zero = p == ("eq" if tr else "ne") or p == ("ule" if tr else "ugt") and s.lf(c.ops[1], env) == {} or p == ("uge" if tr else "ult") and s.lf(c.ops[0], env) == {} \
            or p == ("ult" if tr else "uge") and s.lf(c.ops[1], env) == {(): 1} or p == ("ugt" if tr else "ule") and s.lf(c.ops[0], env) == {(): 1}
        if p in ("ult", "uge") and s.lf(c.ops[1], env) == {(): 1} or p in ("ugt", "ule") and s.lf(c.ops[0], env) == {(): 1}: d = {x: k for x, k in d.items() if x != ()}
        if not zero: return env, P
        sy = [x for x, k in d.items() if x != () and k in (1, -1) and x[0] == "v"]
        if not sy: return env, P
        x = sy[0]; k = d[x]; r = {y: -k * c_ for y, c_ in d.items() if y != x}
        def sub(q):
            return add({y: c_ for y, c_ in q.items() if y != x}, r, q[x]) if x in q else q
        env = {a: sub(q) for a, q in env.items()}; env[x[1]] = r
        return env, sub(P)
    def event(s, i, env, P, cor):
        f = s.f
        if i.op == "store":
            if any(x == "WesolowskiCallback::iterations" for x in f.fields_of(i.ops[1])): s.obl.append(("publish", i, add(s.lf(i.ops[0], env), P, -1)))
            return None
        sh = short(i.dem)
        if sh in SQ:
            kf, kb, kn = SQ[sh]
            fo = f.base_off(i.args[kf])
            s.obl.append(("form", i, fo)); s.obl.append(("base", i, add(s.lf(i.args[kb], env), P, -1)))
            n = s.lf(i.args[kn], env)
            if sh.startswith("repeated_square_fast"):
                if cor: s.obl.append(("fallback", i, None))
                e1 = dict(env); e1[i.i] = {(): 2 ** 64 - 1}; e2 = dict(env); e2[i.i] = {("R", i.i): 1}
                return [(e1, P, True), (e2, add(P, {("R", i.i): 1}), False)]
            if sh in SLOW: cor = False
            return [(env, add(P, n), cor)]
        if sh.startswith(("std::atomic", "std::__atomic_base")) and i.args and any(x == "WesolowskiCallback::iterations" for x in f.fields_of(i.args[0])):
            last = sh.split("::")[-1]
            if last.startswith("operator=") or last in ("store", "exchange"): s.obl.append(("publish", i, add(s.lf(i.args[1], env), P, -1)))
            elif last.startswith(("operator+=", "operator++", "fetch_add", "operator-")): s.obl.append(("publish", i, {("?",): 1}))
            return None
        for a in i.args:
            if a[0] in ("a", "v") and s.form and f.base_off(a)[0] == s.form and not i.callee.startswith("llvm.") if i.callee else False:
                ro = gmproles(i)
                if ro is not None:
                    if any(k in "obpIC" and f.base_off(v)[0] == s.form for v, k in ro): s.obl.append(("other", i, sh))
        return None

def ledger(R, M, F):
    f = F["repeated_square"]; w = "%s:%d" % (ir.rel(f.file), f.line)
    L = Ledger(f, R)
    first = next(i for i in f.calls() if short(i.dem) in SQ)
    L.form = f.base_off(first.args[SQ[short(first.dem)][0]])[0]
    L.run()
    R.saw("paths", "repeated_square loop: %d block visits, %d obligations" % (L.n, len(L.obl)))
    # the counter: a loop variable that starts at 0 and is right at every point
    cand = []
    for i in L.phis:
        if width(i.ty) != 64: continue
        ins = [v for v, q in f.phi_inc(i) if q not in L.L]
        if all(v[0] == "c" and int(v[1]) == 0 for v in ins):
            wrong = sum(1 for k, at, x in L.obl if k in ("base", "publish") and x != {("phi", i.i): 1} or k == "back" and x.get(i.i) != {("phi", i.i): 1})
            cand.append((wrong, i.i))
    if not cand: raise Broken("no iteration counter found in the squaring loop")
    wrong, c = min(cand)
    seen = {}
    for k, at, x in L.obl:
        if k in ("base", "publish"): ok = x == {("phi", c): 1}
        elif k == "back": ok = x.get(c) == {("phi", c): 1}
        elif k == "form": ok = x == (L.form, 0)
        else: ok = False
        key = (k, at.where() if hasattr(at, "where") else str(at)); seen[key] = (seen.get(key, (True,))[0] and ok, at)
    txt = {"base": ("starts at the number of squarings already performed", "starts at another number than the squarings already performed"),
           "publish": ("is the number of squarings performed", "is not the number of squarings performed"),
           "back": ("counts exactly the squarings performed", "does not count exactly the squarings performed"),
           "form": ("works on the form of the loop", "works on another form")}
    nm = {"base": "the squaring", "publish": "the published progress", "back": "the loop counter", "form": "the squaring"}
    fb = 0
    for (k, where), (ok, at) in seen.items():
        if k == "fallback":
            R.bad("P08.fallback", where, "after a batch reported corrupt the slow algorithm does not recompute it", key="fallback"); fb += 1
        elif k == "other": R.bad("P08.ledger", where, "the form is changed outside the squarings", key="other")
        else: R.check("P08.ledger", ok, where, "%s %s" % (nm[k], txt[k][0 if ok else 1]), key="%s %s" % (k, where), inst="%s at %s" % (k, where))
    if not fb: R.ok("P08.fallback", "every corrupt batch is recomputed by the slow algorithm")
    if not any(k == "back" for k, _ in seen) or not any(k == "publish" for k, _ in seen): raise Broken("the squaring loop shows no progress")

# ------------------------------------------------------------------ numbering
class Num(World):
    def __init__(s, f, sq, listener):
        super().__init__(f); s.sq = sq; s.lis = listener; s.bad = {}; s.rep = []
    def start(s): return {"sq": 0, "nl": None, "rp": 0}
    def answer(s, i, m, kn):
        if not i.is_call(): return None
        sh = short(i.dem)
        if sh in s.sq:
            if m["sq"]: s.bad.setdefault("squares twice in one iteration", i)
            return [(None, dict(m, sq=1))]
        if not i.callee and any(s.islis(a) for a in i.args):
            if not m["sq"]: s.bad.setdefault("reports an iteration before performing it", i)
            if m["rp"]: s.bad.setdefault("reports an iteration twice", i)
            s.rep.append(i); return [(None, dict(m, rp=1))]
        return None
    def islis(s, a): return a == ("a", s.lis)
    def step(s, i, mem, e):
        if i.op == "icmp" and ("a", s.lis) in i.ops and ("n",) in i.ops and i.d["pred"] in ("eq", "ne"):
            out = []
            for nl in (0, 1):
                if mem["nl"] is not None and mem["nl"] != nl: continue
                e2 = dict(e); e2[("v", i.i)] = nl if i.d["pred"] == "eq" else 1 - nl
                out.append((dict(mem, nl=nl), e2))
            return out
        return super().step(i, mem, e)
    def edge(s, b, z, mem, env):
        if z in s.heads and b in s.heads[z] and s.main is not None and z == s.main:
            if not mem["sq"]: s.bad.setdefault("counts an iteration it did not perform", s.f.blocks[b].term)
            if not mem["rp"] and mem["nl"] != 1: s.bad.setdefault("does not report an iteration", s.f.blocks[b].term)
            return dict(mem, sq=0, rp=0)
        return mem
    main = None

def numbering(R, M, F):
    from .p09 import linform
    for nm, sq, kb, kn, kl in (("repeated_square_original", ("vdf_original::square",), 4, 5, 6), ("repeated_square_nudupl", ("nudupl_form", "qfb_nudupl"), 3, 4, 6)):
        f = F.get(nm)
        if f is None: continue
        w = Num(f, sq, kl); loc = "%s:%d" % (ir.rel(f.file), f.line)
        cs = [i for i in f.calls() if short(i.dem) in sq]
        if len(cs) < 1: raise Broken("%s performs no squaring" % nm)
        hs = [(len(L), h) for h, L in f.loops().items() if cs[0].bb in L]
        if not hs: raise Broken("%s has no loop" % nm)
        w.main = min(hs)[1]; w.run(0)
        for t, i in w.bad.items(): R.bad("P08.numbering", i.where(), "%s %s" % (nm, t), key="%s %s" % (nm, t))
        if not w.bad: R.ok("P08.numbering", "%s performs and reports one squaring per iteration" % nm)
        if not w.rep: raise Broken("%s reports nothing" % nm)
        report(R, f, nm, w.rep[0], f.loops()[w.main], w.main, kb, kn, linform, cs[0])
    for nm in ("repeated_square_fast_work", "repeated_square_fast_single_thread"):
        f = F.get(nm)
        if f is None: continue
        kb, kn = (2, 3) if nm.endswith("work") else (4, 5)
        rp = [i for i in f.calls() if not i.callee and len(i.args) == 4]
        if not rp: continue
        hs = [(len(L), h) for h, L in f.loops().items() if rp[0].bb in L]
        if not hs: raise Broken("%s reports outside a loop" % nm)
        h = min(hs)[1]
        report(R, f, nm, rp[0], f.loops()[h], h, kb, kn, linform, rp[0])

def report(R, f, nm, i, L, h, kb, kn, linform, inner):
    phis = {("v", p.i): p for p in f.blocks[h].insts if p.op == "phi"}
    ind = None
    for v, p in phis.items():
        init = [x for x, b in f.phi_inc(p) if b not in L]; step = [linform(f, x) for x, b in f.phi_inc(p) if b in L]
        if all(x[0] == "c" and int(x[1]) == 0 for x in init) and step and all(x == {v: 1, (): 1} for x in step): ind = v
    # an induction variable that runs from the base itself
    ind2 = None
    for v, p in phis.items():
        init = [x for x, b in f.phi_inc(p) if b not in L]; step = [linform(f, x) for x, b in f.phi_inc(p) if b in L]
        if init and all(x == ("a", kb) for x in init) and step and all(x == {v: 1, (): 1} for x in step): ind2 = v
    num_ = linform(f, i.args[-1])
    ok = ind is not None and num_ == {("a", kb): 1, ind: 1} or ind2 is not None and num_ == {ind2: 1}
    R.check("P08.numbering", ok, i.where(), "%s reports %s" % (nm, "base + i for the i-th iteration" if ok else "another number than base + i"), key=nm + " number")
    if ind is None:
        down = [v for v, p in phis.items() if all(x == ("a", kn) for x, b in f.phi_inc(p) if b not in L) and all(linform(f, x) == {v: 1, (): -1} for x, b in f.phi_inc(p) if b in L)]
        if ind2 is None and not down: raise Broken("%s: loop without a recognised counter" % nm)
        return
    D = f.dom()
    from .p09 import domb
    good = False; seen = []
    for b in L:
        t = f.blocks[b].term
        if t.op != "br" or len(set(t.d["succ"])) != 2 or all(z in L for z in t.d["succ"]): continue
        c = f.inst(t.ops[0])
        if c is None or c.op != "icmp": continue
        a, q = linform(f, c.ops[0]), linform(f, c.ops[1]); p = c.d["pred"]
        if a == {("a", kn): 1}: a, q = q, a; p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        if q != {("a", kn): 1}: continue
        stay = t.d["succ"][0] in L
        first = b == h and b != inner.bb or domb(f, b, inner.bb)
        want = {ind: 1} if first else {ind: 1, (): 1}
        cont = p if stay else INV[p] if p in INV else p
        seen.append((a, cont, first))
        if a == want and cont in ("ult", "ne"): good = True
        else: good = False; break
    R.check("P08.numbering", good, f.blocks[h].term.where(), "%s performs %s" % (nm, "exactly the requested number of iterations" if good else "another number of iterations than requested"), key=nm + " bound")
INV = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}
