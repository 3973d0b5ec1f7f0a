"""S03: what the peer sends is validated before it is used.
The whole session program (main with every function that reads from the socket inlined) is analysed with the linear-inequality
domain: read sizes against the buffers, digit ranges, wrap-around of parsed numbers, the discriminant's sign and length, request
ranges, indices of the session's tables; failed reads are explored in the world where they fail."""
import re
from .. import ir
from ..ir import short, Broken
from ..lin import Lin, K, A, E, INV, entails, width
from . import a04

TU = "vdf_client_nd"
READ = re.compile(r"boost::asio::read<|::read_some<|::receive<|boost::asio::read_until<|boost::asio::read_at<")
PASS = "always-inline," + ",".join(["function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg)"] * 2)
CSTR = re.compile(r"^(atoi|atol|atoll|strtol|strtoll|strtoul|strtoull|strlen|__gmpz_set_str|__gmpz_init_set_str|sscanf|strcpy|std::(__cxx11::)?(stoi|stol|stoul|stoull|stoll))$")
FROMC = re.compile(r"::(basic_string|basic_string_view)(<[^()]*>)?\(char const\*(, std::allocator<char> const&)?\)|(^|\s)integer::integer\(char const\*|::operator=\(char const\*\)")
CAST = ("zext", "sext", "trunc", "freeze")

def isread(i): return i.is_call() and bool(i.callee) and bool(READ.search(i.dem))

def run(R):
    R.rule("S03.size", "every read from the peer asks for at most as many bytes as its destination holds", floor=6)
    R.rule("S03.text", "bytes read from the peer are handed to text-parsing functions only with a terminator behind them", floor=2)
    R.rule("S03.errors", "nothing a failed read was to deliver is used and the session does not go on as if it had arrived", floor=6)
    R.rule("S03.digits", "a byte turned into a decimal digit is known to be '0'..'9'", floor=2)
    R.rule("S03.wrap", "no arithmetic on numbers parsed from the peer's bytes can wrap around", floor=4)
    R.rule("S03.disc", "the discriminant is negative and at most 1024 bits when anything is computed with it", floor=6)
    R.rule("S03.range", "a two-Wesolowski proof is started only for an iteration count within the supported range", floor=1)
    R.rule("S03.table", "indices into the session's tables that derive from requests are within the tables", floor=1)
    errors(R)
    f, M = session()
    R.saw("functions", "main with %d blocks after inlining the session" % len(f.blocks))
    S = Sess(f, M)
    sizes(R, S)
    numbers(R, S)
    disc(R, S)
    ranges(R, S)
    tables(R, S)
    R.assume_("boost::asio reads store exactly what they report; std containers behave as specified")

def session():
    G = ir.view(TU, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    up = {n for n, f in G.funcs.items() if f.blocks and a04.isrepo(f) and any(isread(i) for i in f.calls())}
    if not up: raise Broken("nothing reads from a socket")
    ch = True
    while ch:
        ch = False
        for n, f in G.funcs.items():
            if n in up or not a04.isrepo(f): continue
            if any(i.callee in up for i in f.calls()) or set(G.edges.get(n, ())) & up: up.add(n); ch = True
    if "main" not in up: raise Broken("main does not reach the session")
    def small(m):
        f = G.funcs.get(m)
        if f is None or not f.blocks or not a04.isrepo(f): return False
        if "::local" in short(f.dem): return True
        if re.match(r"(integer|form|mpz\w*)::|operator|GetB$|HashPrime|FastPow|root$|(Ser|Deser)ializeForm|repeated_square|Prove|CreateAndWrite|WriteProof", short(f.dem)): return False
        return len(list(f.all())) < 80
    M = ir.view_if(TU, lambda f, m, d: m == "main", lambda f, m, d: not (m in up or small(m)), passes=PASS)
    f = M.funcs.get("main")
    if f is None or not f.blocks: raise Broken("no view of main")
    return f, M

class Sess:
    def __init__(s, f, M):
        s.f = f; s.M = M; s.R = f.reach_entry()
        s.reads = []                      # (read, destination pointer, length value or None)
        for i in f.calls():
            if isread(i) and i.bb in s.R:
                bs = buffers(f, i)
                s.reads.append((i, bs))
        s.ints = {b for b in (f.base_off(i.args[0])[0] for i in f.calls() if i.args and re.search(r"(^|\s)integer::integer\(", i.dem)) if s.isalloca(b)}
        s.elems = None; s.wr = {}
        s.L = Lin(f, s.key, s.extra)
    def isalloca(s, b):
        i = s.f.inst(b)
        return i is not None and i.op == "alloca"
    def key(s, i, m):
        f = s.f
        if i.is_call():
            d = i.dem
            if "std::numeric_limits<" in d and re.search(r"::(max|min)\(\)", d):
                w = width(i.ty); uns = "unsigned" in d.split("numeric_limits<")[1].split(">")[0] or "char8" in d
                if w is None: return None
                mx = "::max()" in d
                if uns: return K((1 << w) - 1 if mx else 0)
                return K((1 << (w - 1)) - 1 if mx else -(1 << (w - 1)))
            if re.search(r"integer::num_bits\(", d) and i.args: return ("C", "nb", f.base_off(i.args[0]), 31)
            if re.match(r"__gmpz_sizeinbase$", i.callee or "") and i.args and i.args[1] == ("c", "2", 32): return ("C", "nb", f.base_off(i.args[0]), 31)
        if i.op == "load":
            b, o = f.base_off(i.ops[0])
            if o == 4 and b in s.ints: return A(("SGN", b))
            r = s.same(i)
            if r is not None: return s.L.u(r) if m == "U" else s.L.sx(r)
        return None
    def same(s, l):
        """an earlier load of the same element of a container that is not written in between"""
        f = s.f
        if s.elems is None:
            s.elems = {}
            for i in f.all():
                if i.op != "load" or i.bb not in s.R: continue
                h, o, c = holder(f, i.ops[0])
                if c is None or len(c.args) < 2 or not s.isalloca(h) or not iscontainer(f, h): continue
                x = c.args[1]
                while f.inst(x) is not None and f.inst(x).op in CAST: x = f.inst(x).ops[0]
                s.elems.setdefault((h, x, i.ty), []).append(i)
        for k, ls in s.elems.items():
            if l not in ls: continue
            for r in ls:
                if r is l: return None
                if not f.dominates(r.bb, l.bb) or r.bb == l.bb and r.idx > l.idx: continue
                if all(f.dominates(w.bb, r.bb) and (w.bb != r.bb or w.idx < r.idx) for w in s.writers(k[0])): return ("v", r.i)
        return None
    def writers(s, h):
        """what may change the elements of a container: everything that gets hold of it except queries, and stores into it"""
        f = s.f
        if h not in s.wr:
            out = []
            for u in f.all():
                if u.bb not in s.R: continue
                if u.op == "store" and (holder(f, u.ops[1])[0] == h or holder(f, u.ops[0])[0] == h and u.ops[0][0] == "v"): out.append(u)
                elif u.is_call() and u.callee and not u.callee.startswith(("llvm.lifetime", "llvm.dbg")):
                    for a in u.args:
                        if holder(f, a)[0] != h: continue
                        if re.search(r"::(size|length|empty|operator\[\]|at|~vector|~basic_string)(\(|$)", u.dem.split("(")[0] + "("): continue
                        if re.search(r"::(data|begin|front|c_str)\(", u.dem):
                            if all(q.is_call() and "boost::asio::buffer" in q.dem or q.op == "load" for q in f.all() if ("v", u.i) in q.ops or q.is_call() and ("v", u.i) in q.args): continue
                        out.append(u); break
            for i, bs in s.reads:
                if any(holder(f, p)[0] == h for p, ln, j in bs): out.append(i)
            s.wr[h] = out
        return s.wr[h]
    def extra(s, lin, b):
        """facts of boolean calls that decide dominating branches"""
        out = []; f = s.f
        for p, z in lin.dominating_edges(b):
            t = f.blocks[p].term
            if t.op != "br" or len(t.d["succ"]) != 2: continue
            out += s.boolfacts(t.ops[0], z == t.d["succ"][0])
        return out
    def boolfacts(s, c, truth, d=0):
        f = s.f; i = f.inst(c)
        if i is None or d > 8: return []
        if i.op == "xor" and i.ops[1][0] == "c": return s.boolfacts(i.ops[0], not truth, d + 1)
        if i.op in ("zext", "trunc", "freeze"): return s.boolfacts(i.ops[0], truth, d + 1)
        if i.op == "select" and i.ops[2] == ("c", "0", 1) and truth: return s.boolfacts(i.ops[0], True, d + 1) + s.boolfacts(i.ops[1], True, d + 1)
        if i.op == "select" and i.ops[1][0] == "c" and i.ops[1][1] != "0" and not truth: return s.boolfacts(i.ops[0], False, d + 1) + s.boolfacts(i.ops[2], False, d + 1)
        if i.op == "or" and not truth or i.op == "and" and truth: return s.boolfacts(i.ops[0], truth, d + 1) + s.boolfacts(i.ops[1], truth, d + 1)
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne") and i.ops[1][0] == "c" and i.ops[1][1] == "0":
            return s.boolfacts(i.ops[0], truth == (i.d["pred"] == "ne"), d + 1)
        if i.op == "icmp" and i.ops[1][0] == "c":
            pred = i.d["pred"] if truth else INV[i.d["pred"]]; k = int(i.ops[1][1])
            neg = pred == "slt" and k <= 0 or pred == "sle" and k < 0 or pred == "eq" and k < 0
            j = f.inst(i.ops[0])
            while j is not None and j.op in ("sext", "freeze"): j = f.inst(j.ops[0])
            if neg and j is not None and j.op == "select":
                # (size < 0 ? -1 : size > 0) is negative
                if j.ops[1][0] == "c" and int(j.ops[1][1]) < 0 and s.nn(j.ops[2]): return s.L.cond_facts(j.ops[0], True, j.bb)
                if j.ops[2][0] == "c" and int(j.ops[2][1]) < 0 and s.nn(j.ops[1]): return s.L.cond_facts(j.ops[0], False, j.bb)
            if neg and j is not None and j.op == "phi":
                c = [(x, b) for x, b in f.phi_inc(j) if not s.nn(x)]
                if len(c) == 1 and c[0][0][0] == "c": return s.L.facts(c[0][1]) + s.L.edge_facts(c[0][1], j.bb)
        if i.is_call() and i.args and i.ty == "i1":
            m = re.search(r"integer::operator(<=|>=|<|>)\(", i.dem)
            b = f.base_off(i.args[0])[0]
            if m and b in s.ints:
                k = s.intconst(i.args[1])
                op = m.group(1) if truth else {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[m.group(1)]
                a = A(("SGN", b))
                if k is not None and (op == "<" and k <= 0 or op == "<=" and k < 0): return [K(-1) - a]
        return []
    def nn(s, v):
        """not negative whatever it is"""
        if v[0] == "c": return int(v[1]) >= 0
        i = s.f.inst(v)
        return i is not None and i.op == "zext"
    def intconst(s, v):
        if v[0] == "c": return int(v[1])
        b = s.f.base_off(v)[0]
        for i in s.f.calls():
            if i.args and len(i.args) == 2 and re.search(r"(^|\s)integer::integer\((long|int|unsigned)", i.dem) and s.f.base_off(i.args[0])[0] == b and i.args[1][0] == "c": return int(i.args[1][1])
        return None
    # ---- proving
    def prove(s, goal, bb, d=0):
        if s.L.rounds(lambda: s._prove(goal, bb)): return True
        return d < 4 and s.split(goal, bb, [], d)
    def _prove(s, goal, bb, more=()):
        return entails(s.L.close(s.L.facts(bb) + list(more) + s.L.range_facts(goal)), goal)
    def split(s, goal, bb, more, d):
        """case distinction over the conditions that decided the path here"""
        for p, z in s.L.dominating_edges(bb):
            t = s.f.blocks[p].term
            if t.op != "br": continue
            cs = s.cases(t.ops[0], z == t.d["succ"][0], p)
            if cs is None: continue
            if all(s.L.rounds(lambda c=c: s._prove(goal, bb, list(more) + c)) or d < 2 and s.split_rest(goal, bb, list(more) + c, p, d + 1) for c in cs): return True
        ps = [p for p in s.f.blocks[bb].pred if p in s.R]
        if len(ps) > 1 and bb not in s.L.loops and d < 3:
            return all(s.L.rounds(lambda p=p: s._prove(goal, p, s.L.edge_facts(p, bb))) or s.split(goal, p, s.L.edge_facts(p, bb), d + 1) for p in ps)
        return False
    def split_rest(s, goal, bb, more, done, d):
        for p, z in s.L.dominating_edges(bb):
            t = s.f.blocks[p].term
            if p == done or t.op != "br": continue
            cs = s.cases(t.ops[0], z == t.d["succ"][0], p)
            if cs and all(s.L.rounds(lambda c=c: s._prove(goal, bb, more + c)) for c in cs): return True
        return False
    def cases(s, c, truth, blk, d=0):
        """non-convex condition as a list of fact lists, None when it is convex"""
        i = s.f.inst(c); L = s.L
        if i is None or d > 4: return None
        if i.op == "xor" and i.ops[1][0] == "c": return s.cases(i.ops[0], not truth, blk, d + 1)
        a = b = None
        if i.op == "and" and not truth or i.op == "or" and truth: a, b = i.ops
        elif i.op == "select" and not truth and i.ops[2] == ("c", "0", 1): a, b = i.ops[0], i.ops[1]
        elif i.op == "select" and truth and i.ops[1][0] == "c" and i.ops[1][1] != "0": a, b = i.ops[0], i.ops[2]
        if a is not None:
            x = s.cases(a, truth, blk, d + 1) or [L.cond_facts(a, truth, blk)]
            y = s.cases(b, truth, blk, d + 1) or [L.cond_facts(b, truth, blk) + L.cond_facts(a, not truth, blk)]
            return x + y
        if (i.op == "or" and not truth) or (i.op == "and" and truth) or i.op == "select":
            parts = [i.ops[0], i.ops[1]] if i.op != "select" else ([i.ops[0], i.ops[2]] if not truth else [i.ops[0], i.ops[1]])
            for k, q in enumerate(parts):
                r = s.cases(q, truth, blk, d + 1)
                if r is not None: return [x + L.cond_facts(parts[1 - k], truth, blk) for x in r]
        if i.op == "icmp" and (i.d["pred"] == "ne") == truth and i.d["pred"] in ("eq", "ne"):
            x, y = L.u(i.ops[0]), L.u(i.ops[1])
            return [[x - y - K(1)], [y - x - K(1)]]
        return None
    def uses_size(s, b):
        """bytes of an object, None when unknown"""
        if b[0] == "g":
            g = s.M.globals.get(b[1])
            return g.get("size") if g else None
        i = s.f.inst(b)
        return i.d.get("size") if i is not None and i.op == "alloca" else None

def buffers(f, i):
    """(pointer, length value or None when the buffer carries its own size) of the memory a read delivers into"""
    out = []; seen = set()
    def cand(v, d=0):
        if v in seen or d > 12: return
        seen.add(v); j = f.inst(v)
        if j is None: return
        if j.is_call() and "boost::asio::buffer" in j.dem: out.append(bufcall(f, j, 0)); return
        if j.op in ("extractvalue", "insertvalue", "phi", "select"):
            for x in (list(j.ops) if j.op != "phi" else [q for q, _ in f.phi_inc(j)]): cand(x, d + 1)
        if j.op == "load": fromobj(f.base_off(j.ops[0])[0], d + 1)
    def fromobj(b, d=0):
        if ("o", b) in seen or d > 12: return
        seen.add(("o", b)); j = f.inst(b)
        if j is None or j.op != "alloca": return
        for u in f.all():
            if u.op == "store" and f.base_off(u.ops[1])[0] == b: cand(u.ops[0], d + 1)
            if u.is_call() and u.callee and u.args and f.base_off(u.args[0])[0] == b:
                if "boost::asio::buffer" in u.dem and u is not i: out.append(bufcall(f, u, 1))
                elif re.search(r"mutable_buffers?(_1)?::mutable_buffers?(_1)?\(", u.dem):
                    if len(u.args) == 3: out.append((u.args[1], u.args[2], u))
                    elif len(u.args) == 2: fromobj(f.base_off(u.args[1])[0], d + 1)
                elif u.callee.startswith(("llvm.memcpy", "llvm.memmove")): fromobj(f.base_off(u.args[1])[0], d + 1)
    for a in i.args[1:] if "::read_some" not in i.dem else i.args[1:]:
        cand(a); fromobj(f.base_off(a)[0])
    return out
def bufcall(f, j, k):
    a = j.args[k:]
    return (a[0], a[1] if len(a) > 1 else None, j)

def holder(f, v):
    """the object behind a data pointer and the offset in it"""
    for _ in range(8):
        b, o = f.base_off(v); i = f.inst(b)
        if i is not None and i.is_call() and i.args and re.search(r"::(data|begin|front|c_str|operator\[\]|at)(\(|$)", i.dem.split("(")[0] + "("):
            if re.search(r"::(operator\[\]|at)\(", i.dem): return f.base_off(i.args[0])[0], None, i
            v = i.args[0]; cont = True; continue
        return b, o, None
    return b, o, None

def sizes(R, S):
    f = S.f; n = 0
    for i, bs in S.reads:
        if not bs: R.assume_("the destination of the read at %s was not resolved" % i.where())
        for p, ln, j in bs:
            b, o, idx = holder(f, p); n += 1
            what = "%s reads from the peer into %s" % (fnat(i), oname(S, b))
            if ln is None:
                R.ok("S03.size", "%s: the buffer carries its own size" % what); continue
            cap = S.uses_size(b); cont = iscontainer(f, b)
            L = S.L; e = L.u(ln)
            if cont:
                caps = contcaps(f, b)
                ok = any(L.u(c).key() == e.key() or S.prove(L.u(c) - e, j.bb) for c in caps) or bounded(f, ln, b)
                if not ok and not caps: R.assume_("the size of the container at %s was not resolved" % i.where()); continue
            else:
                if cap is None: R.assume_("the size of the destination at %s was not resolved" % i.where()); continue
                lim = K(cap - (o or 0))
                if o is None:
                    g = f.inst(p); lim = None
                    if g is not None and g.op == "getelementptr" and g.d.get("voff") and len(g.d["voff"]) == 1 and g.d["voff"][0][1] == 1 and f.base_off(g.ops[0])[1] == 0:
                        lim = K(cap - g.d.get("coff", 0)) - L.sx(tuple(g.d["voff"][0][0]))
                    if lim is None: R.assume_("the offset of the destination at %s was not resolved" % i.where()); continue
                ok = S.prove(lim - e, j.bb)
            R.check("S03.size", ok, i.where(), "%s with a length that is not limited to the %s bytes it has" % (what, cap if not cont else "elements"), inst="%s, %s" % (what, "at most %s bytes" % cap if not cont else "a container sized for it"), key="%s %s" % (fnat(i), oname(S, b)))
            text(R, S, i, j, p, ln, b, cap)
    if not n: raise Broken("no destination of a read was resolved")

def iscontainer(f, b):
    i = f.inst(b)
    return i is not None and i.op == "alloca" and bool(re.search(r"std::(vector|__cxx11::basic_string|basic_string|deque)", i.d.get("aty", "")))
def contcaps(f, b):
    out = []
    for u in f.calls():
        if u.callee and u.args and f.base_off(u.args[0])[0] == b and re.search(r"::(vector|basic_string|resize|assign)\(unsigned long", u.dem) and len(u.args) > 1: out.append(u.args[1])
    return out
def bounded(f, ln, b):
    j = f.inst(ln)
    return j is not None and j.is_call() and bool(re.search(r"::(size|length)\(", j.dem)) and f.base_off(j.args[0])[0] == b

def fnat(i):
    """innermost source position (function names are gone after inlining)"""
    return i.where().rsplit(":", 1)[0]
def oname(S, b):
    if b[0] == "g": return b[1]
    i = S.f.inst(b)
    n = getattr(S.f, "vnames", {}).get(b) if hasattr(S.f, "vnames") else None
    return n or ("a local of %s" % (i.d.get("aty", "?") if i is not None else "?"))

def text(R, S, i, j, p, ln, b, cap):
    """C-string consumers of the destination"""
    f = S.f
    if iscontainer(f, b) or cap is None: return
    D = f.dom()
    for u in f.calls():
        if u.bb not in S.R or not u.callee: continue
        sh = short(u.dem).split("[")[0]; pos = None
        if CSTR.match(sh):
            for k, a in enumerate(u.args):
                if f.base_off(a)[0] == b: pos = k
        elif FROMC.search(u.dem):
            if len(u.args) > 1 and f.base_off(u.args[1])[0] == b: pos = 1
        if pos is None or not follows(f, i.bb, u.bb): continue
        L = S.L; e = L.u(ln); o = f.base_off(p)[1] or 0
        room = S.prove(K(cap - 1 - o) - e, j.bb)
        ok = room and (zeroed(S, i, b, cap) or terminated(S, i, u, b, e, o))
        R.check("S03.text", ok, u.where(), "%s parses %s as text although %s" % (short(u.dem), oname(S, b), "no terminator is left behind what was read" if room else "the peer can fill it to the last byte, leaving no terminator"), inst="%s of %s: zeroed before and at most %d bytes read" % (short(u.dem), oname(S, b), cap - 1), key="%s %s text" % (short(u.dem), oname(S, b)))

def follows(f, a, b):
    seen = {a}; st = [a]
    while st:
        x = st.pop()
        if x == b: return True
        for z in f.blocks[x].succ:
            if z not in seen: seen.add(z); st.append(z)
    return False
def zeroed(S, i, b, cap):
    f = S.f
    if b[0] == "g":
        # zero-initialised and written by nothing but reads, or cleared before
        others = [u for u in f.all() if u.op == "store" and f.base_off(u.ops[1])[0] == b]
        if not others: return True
    for u in f.calls():
        if u.callee and (u.callee.startswith("llvm.memset") or u.callee == "memset") and f.base_off(u.args[0]) == (b, 0) and u.args[1][0] == "c" and int(u.args[1][1]) == 0 and u.args[2][0] == "c" and int(u.args[2][1]) >= cap and f.dominates(u.bb, i.bb): return True
    # brace initialisation: stores of zero covering the object
    cov = set()
    for u in f.all():
        if u.op == "store" and f.base_off(u.ops[1])[0] == b and u.ops[0][0] in ("c", "z", "n") and (u.ops[0][0] != "c" or u.ops[0][1] == "0") and f.dominates(u.bb, i.bb):
            o = f.base_off(u.ops[1])[1]
            if o is not None: cov |= set(range(o, o + (u.d.get("size") or 1)))
    return len(cov & set(range(cap))) == cap
def terminated(S, i, u, b, e, o):
    f = S.f
    for t in f.all():
        if t.op == "store" and t.ops[0] == ("c", "0", 8) and f.base_off(t.ops[1])[0] == b and f.dominates(i.bb, t.bb) and f.dominates(t.bb, u.bb):
            g = f.inst(t.ops[1])
            if g is not None and g.op == "getelementptr":
                if "off" in g.d and e.const() == g.d["off"] - o: return True
                if g.d.get("voff") and len(g.d["voff"]) == 1 and g.d["voff"][0][1] == 1:
                    x = S.L.sx(tuple(g.d["voff"][0][0])) + K(g.d.get("coff", 0) - o)
                    if (x - e).const() == 0: return True
    return False

class Only:
    """A04's exploration of failed reads, reported under this property"""
    def __init__(s, R): s.R = R
    def check(s, rule, ok, where, text, inst=None, key=None):
        if rule in ("A04.outputs", "A04.passed"): s.R.check("S03.errors", ok, where, text, inst=inst, key=key)
    def saw(s, *a): pass
    def __getattr__(s, n): return getattr(s.R, n)

def errors(R): a04.unit(Only(R), TU, set(), only=lambda i: a04.asioread(i))

# ---------------------------------------------------------------- numbers
def numbers(R, S):
    f = S.f; L = S.L
    dest = set()
    for i, bs in S.reads:
        for p, ln, j in bs: dest.add(holder(f, p)[0])
    src = {}
    for i in f.all():
        if i.op == "load" and (i.ty == "i8"):
            b = f.base_off(i.ops[0])[0]
            if b in dest: src[("v", i.i)] = 1
            else:
                h, o, idx = holder(f, i.ops[0])
                if h in dest: src[("v", i.i)] = 1
    taint = set(src); ch = True; digit = {}
    slots = set()
    while ch:
        ch = False
        for i in f.all():
            v = ("v", i.i)
            if v in taint: continue
            t = False
            if i.op in CAST + ("add", "sub", "mul", "shl", "or", "and", "xor", "select", "udiv", "urem"): t = any(x in taint for x in (i.ops if i.op != "select" else i.ops[1:]))
            elif i.op == "phi": t = any(x in taint for x, _ in f.phi_inc(i))
            elif i.op == "load": t = i.ops[0] in slots
            elif i.op == "store" and i.ops[0] in taint and S.isalloca(f.base_off(i.ops[1])[0]) and i.ops[1] not in slots and f.base_off(i.ops[1])[0] not in dest: slots.add(i.ops[1]); ch = True
            if t: taint.add(v); ch = True
    def strip(v):
        i = f.inst(v)
        while i is not None and i.op in CAST: v = i.ops[0]; i = f.inst(v)
        return v, i
    def isdigit(v):
        """byte - '0' (through casts)"""
        v, i = strip(v)
        if i is None: return False
        if i.op == "phi": return False
        if i.op == "sub" and i.ops[1][0] == "c" and int(i.ops[1][1]) == 48: return strip(i.ops[0])[0] in src
        if i.op == "add" and i.ops[1][0] == "c" and int(i.ops[1][1]) == -48: return strip(i.ops[0])[0] in src
        if i.op == "and" and i.ops[1] in (("c", "15", 8), ("c", "15", 32)): return strip(i.ops[0])[0] in src
        return False
    seen = set(); nd = nw = 0
    for i in f.all():
        if i.bb not in S.R or i.op not in ("add", "sub", "mul", "shl"): continue
        v = ("v", i.i)
        if v not in taint or isdigit(v): continue
        w = width(i.ty)
        for x in i.ops:
            if isdigit(x):
                nd += 1; k = (i.where(), "digit", fnat(i))
                e = L.sx(x)
                ok = S.prove(e, i.bb) and S.prove(K(9) - e, i.bb)
                if not ok:
                    e = L.u(x); ok = S.prove(e, i.bb) and S.prove(K(9) - e, i.bb)
                R.check("S03.digits", ok, i.where(), "a byte from the peer is used as a digit without having been checked to be one", inst="%s digit %d" % (i.where(), i.i), key="digit %s" % fnat(i))
        ok = fitsop(S, i, w); nw += 1
        R.check("S03.wrap", ok, i.where(), "arithmetic (%s) on a number parsed from the peer's bytes can wrap around" % i.op, inst="%s %s %d" % (i.where(), i.op, i.i), key="wrap %s %s" % (i.op, fnat(i)))
    if not nw:
        lib = [i for i in f.calls() if i.callee and re.match(r"^(atoi|strtoull?|std::(__cxx11::)?sto(i|ul|ull|l|ll)|std::from_chars)", short(i.dem))]
        if not lib: raise Broken("no number is parsed from the peer's bytes")
        for i in lib:
            R.ok("S03.wrap", "library parser at " + i.where()); R.ok("S03.digits", "library parser at " + i.where())
        for r in ("S03.wrap", "S03.digits"): R.rules[r]["floor"] = 1
    R.saw("numbers parsed from the peer", "%d arithmetic steps, %d digits" % (nw, nd))

def fitsop(S, i, w):
    L = S.L; m = "S" if i.d.get("nsw") else "U"
    for m in ([m] if m == "S" else ["U", "S"]):
        a, b = L.ex(i.ops[0], m), L.ex(i.ops[1], m)
        if i.op == "add": e = a + b
        elif i.op == "sub": e = a - b
        elif i.op == "mul":
            if a.const() is not None: e = b.mul(a.c)
            elif b.const() is not None: e = a.mul(b.c)
            else: continue
        else:
            if b.const() is None or not 0 <= b.c < w: continue
            e = a.mul(1 << b.c)
        lo, hi = (0, (1 << w) - 1) if m == "U" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if S.prove(e - K(lo), i.bb) and S.prove(K(hi) - e, i.bb): return True
    return False

# ---------------------------------------------------------------- discriminant
HARMLESS = re.compile(r"(^|\s)integer::(~integer|num_bits|to_vector|to_string|operator(==|!=|<|<=|>|>=))\(|::to_string\(|operator<<|^__gmpz_(sizeinbase|cmp|cmp_si|cmp_ui|cmpabs|get_str|clear)|^llvm\.")
def disc(R, S):
    f = S.f; L = S.L; n = 0
    dest = {holder(f, p)[0] for i, bs in S.reads for p, ln, j in bs}
    texts = set()
    for u in f.calls():
        if u.callee and len(u.args) > 1 and FROMC.search(u.dem) and f.base_off(u.args[1])[0] in dest: texts.add(f.base_off(u.args[0])[0])
    ds = {}
    for u in f.calls():
        if u.callee and len(u.args) > 1 and re.search(r"(^|\s)integer::integer\((std::|char const)", u.dem):
            b1 = f.base_off(u.args[1])[0]
            if b1 in texts or b1 in dest: ds.setdefault(f.base_off(u.args[0])[0], u)
        if u.callee in ("__gmpz_set_str", "__gmpz_init_set_str") and holder(f, u.args[1])[0] in dest | texts: ds.setdefault(f.base_off(u.args[0])[0], u)
    if not ds: raise Broken("no discriminant is parsed from what the peer sends")
    for b, c in sorted(ds.items(), key=repr):
        refs = {b}
        for u in f.calls():
            if u.callee and u.args and "std::ref<integer>" in u.dem and f.base_off(u.args[0])[0] == b: refs.add(("v", u.i))
            if u.callee and len(u.args) > 1 and re.search(r"(^|\s)integer::integer\(integer (const)?", u.dem) and f.base_off(u.args[1])[0] == b: pass
        slots = {f.base_off(u.ops[1])[0] for u in f.all() if u.op == "store" and u.ops[0] in refs}
        for u in f.calls():
            if u is c or u.bb not in S.R or not u.callee or HARMLESS.search(u.dem) or HARMLESS.search(u.callee) or "std::ref<" in u.dem: continue
            if not any(f.base_off(a)[0] == b and f.base_off(a)[1] == 0 or f.base_off(a)[0] in slots and "std::thread" in u.dem for a in u.args): continue
            if "::~" in u.dem: continue
            n += 1
            sg = S.prove(K(-1) - A(("SGN", b)), u.bb)
            nb = S.prove(K(1024) - A(("C", "nb", (b, 0), 31)), u.bb)
            what = short(u.dem)
            R.check("S03.disc", sg, u.where(), "%s works with the peer's discriminant although it was not checked to be negative" % what, inst="%s: negative @%s" % (what, u.where()), key="%s sign" % what)
            R.check("S03.disc", nb, u.where(), "%s works with the peer's discriminant although it was not checked to have at most 1024 bits" % what, inst="%s: size @%s" % (what, u.where()), key="%s size" % what)
    R.saw("discriminants", "%d parsed, %d uses" % (len(ds), n))

# ---------------------------------------------------------------- two-Wesolowski range
def limit():
    import os
    m = re.search(r"kMaxItersAllowed\s*=\s*([0-9.]+(?:[eE]\d+)?)", open(os.path.join(ir.REPO, "src/callback.h")).read())
    return int(float(m.group(1))) if m else 800000000

def ranges(R, S):
    f = S.f; L = S.L; lim = limit(); n = 0
    two = [u for u in f.calls() if u.callee and u.bb in S.R and re.search(r"(^|\s)std::thread::thread<", u.dem) and "TwoWesolowskiCallback" in u.dem]
    for u in two:
        for a in u.args[2:]:
            b, o = f.base_off(a); j = f.inst(b)
            if j is None or j.op != "alloca" or j.d.get("aty") != "i64" or o: continue
            if not fromread(S, b): continue
            n += 1
            ok = False
            for l in f.all():
                if l.op == "load" and f.base_off(l.ops[0]) == (b, 0) and f.dominates(l.bb, u.bb) and not overwritten(f, b, l, u):
                    if S.prove(K(lim) - L.u(("v", l.i)), u.bb): ok = True
            for st in f.all():
                if st.op == "store" and f.base_off(st.ops[1]) == (b, 0) and f.dominates(st.bb, u.bb) and not overwritten(f, b, st, u):
                    if S.prove(K(lim) - L.u(st.ops[0]), u.bb): ok = True
            R.check("S03.range", ok, u.where(), "a two-Wesolowski proof is started for an iteration count that was not checked against the supported maximum of %d" % lim, inst="thread start at %s: iterations <= %d" % (u.where(), lim), key="two weso range")
        # by value in a closure or as a promoted value
    if not n:
        R.assume_("the iteration count handed to two-Wesolowski provers was not found in a form this rule judges"); R.rules["S03.range"]["floor"] = 0

def fromread(S, b):
    """a local that holds a parsed number: stored from something that is not a constant"""
    f = S.f
    return any(st.op == "store" and f.base_off(st.ops[1]) == (b, 0) and st.ops[0][0] != "c" for st in f.all()) and not any(
        st.op == "store" and f.base_off(st.ops[1]) == (b, 0) and f.inst(st.ops[0]) is not None and f.inst(st.ops[0]).is_call() and re.search(r"::size\(", f.inst(st.ops[0]).dem) for st in f.all())

def overwritten(f, b, l, u):
    """is there a path l -> store to b -> u that does not pass l again?"""
    ws = [st for st in f.all() if st.op == "store" and f.base_off(st.ops[1])[0] == b and st is not l]
    for st in ws:
        if st.bb == l.bb:
            if st.idx > l.idx: return True
            continue
        # reach u from st without l's block
        seen = {st.bb}; q = [st.bb]; hit = st.bb == u.bb
        while q and not hit:
            for z in f.blocks[q.pop()].succ:
                if z in seen or z == l.bb: continue
                if z == u.bb: hit = True
                seen.add(z); q.append(z)
        if hit: return True
    return False

# ---------------------------------------------------------------- tables
GROW = re.compile(r"::(push_back|emplace_back)(\(|<)")
IDX = re.compile(r"std::(__cxx11::)?(deque|vector|array)<.*>::(operator\[\]|at)\(")
def tables(R, S):
    f = S.f; L = S.L
    def obj(v): return f.base_off(v)[0]
    grows = {}
    for u in f.calls():
        if u.callee and u.args and u.bb in S.R and GROW.search(u.dem) and S.isalloca(obj(u.args[0])): grows.setdefault(obj(u.args[0]), []).append(u)
    shrunk = {obj(u.args[0]) for u in f.calls() if u.callee and u.args and u.bb in S.R and re.search(r"::(pop_back|pop_front|clear|erase|resize|swap)(\(|<)", u.dem)}
    def sized(v):
        """container whose size() v is"""
        i = f.inst(v)
        if i is not None and i.op in CAST: return sized(i.ops[0])
        return obj(i.args[0]) if i is not None and i.is_call() and re.search(r"::size\(\)", i.dem) else None
    def cogrown(c, d):
        """c has at least as many elements as d: every growth of d is preceded, in the same round, by a growth of c"""
        if c == d: return True
        if c in shrunk: return False
        gs = grows.get(d, [])
        return all(any(f.dominates(g.bb, x.bb) and (g.bb != x.bb or g.idx < x.idx) and sameround(f, g, x) for g in grows.get(c, [])) for x in gs)
    for u in f.calls():
        if not u.callee or u.bb not in S.R or not IDX.search(u.dem) or len(u.args) < 2: continue
        c = obj(u.args[0])
        if not S.isalloca(c) or "at(" in u.dem.split("::")[-1]: continue
        nm = elem(f, c)
        w = u.where()
        if not w.startswith("src/vdf_client"): continue
        for kind, v, at in origins(S, u.args[1]):
            if kind == "counter":
                h = at; bound = loopbound(S, h, u, v)
                if bound is None: continue
                d = bound
                R.check("S03.table", cogrown(c, d), w, "%s is indexed up to the size of another table (%s) that can be longer" % (nm, elem(f, d)), inst="%s: %s indexed below the size of %s" % (w, nm, elem(f, d)), key="%s counter" % nm)
            elif kind == "size":
                R.check("S03.table", False, w, "%s is indexed with a size" % nm, key="%s size" % nm)
            elif kind == "element":
                # value recorded in a set / map: what was recorded?
                recs = recorded(S, v)
                for st, val, ins in recs:
                    d = sized(val)
                    if d is None:
                        if val in requested(S): R.bad("S03.table", w, "%s is indexed with a requested iteration count" % nm, key="%s iteration" % nm)
                        continue
                    sz = f.inst(val) if f.inst(val).is_call() else f.inst(f.inst(val).ops[0])
                    # the entry the recorded size designates is created after the size was taken, on every way on
                    gs = grows.get(c, [])
                    ok = bool(gs) and (cogrown(c, d) or c == d) and created(f, sz, gs)
                    R.check("S03.table", ok, w, "%s is indexed with a recorded position (%s) for which it may have no entry" % (nm, sz.where()), inst="%s: %s indexed with a position recorded before its entry was added" % (w, nm), key="%s recorded" % nm)
            elif kind == "const":
                k = v
                if k < 0:
                    ok = nonempty_when(S, u, grows)
                    R.check("S03.table", ok is not False, w, "%s can be indexed with the value %d that stands for 'none'" % (nm, k), inst="%s: %s indexed only when a request has been recorded" % (w, nm), key="%s none" % nm)
            elif kind == "peer":
                R.check("S03.table", S.prove(K(0) - K(1), u.bb), w, "%s is indexed with a number from the peer" % nm, key="%s peer" % nm)

def elem(f, c):
    i = f.inst(c)
    m = re.search(r"std::(?:__cxx11::)?(\w+)", i.d.get("aty", "")) if i is not None else None
    t = next((t for t in f.vtypes.get(c, ()) if "std::" in t), None) if hasattr(f, "vtypes") else None
    return "the %s %s" % (m.group(1) if m else "table", t or "")

def sameround(f, g, x):
    """between two executions of x there is one of g"""
    seen = set(); q = [z for z in f.blocks[x.bb].succ]
    while q:
        b = q.pop()
        if b in seen or b == g.bb: continue
        seen.add(b)
        if b == x.bb: return False
        q += f.blocks[b].succ
    return True

def created(f, sz, gs):
    """after the size was taken an entry is added on every path that does not leave by an exception, before the next round"""
    gb = {g.bb: g.idx for g in gs}
    if any(g.bb == sz.bb and g.idx > sz.idx for g in gs): return True
    if any(f.dominates(g.bb, sz.bb) and sameround(f, g, sz) for g in gs):
        return False                       # the size was taken after the entry had been added: one too many
    pads = {i.d["unw"] for i in f.all() if i.op == "invoke"}
    seen = set(); q = [z for z in f.blocks[sz.bb].succ if z not in pads]
    while q:
        b = q.pop()
        if b in seen or b in gb: continue
        seen.add(b)
        if b == sz.bb or f.blocks[b].term.op == "ret": return False
        q += [z for z in f.blocks[b].succ if z not in pads]
    return True

def origins(S, v, d=0, seen=None):
    f = S.f; seen = set() if seen is None else seen
    if v in seen or d > 12: return []
    seen.add(v)
    if v[0] == "c":
        k = int(v[1])
        return [("const", k - (1 << v[2]) if k >> (v[2] - 1) and k > 0 and v[2] >= 32 else k, None)]
    i = f.inst(v)
    if i is None: return []
    if i.op in CAST: return origins(S, i.ops[0], d + 1, seen)
    if i.op == "phi":
        if i.bb in S.L.loops and any(step1(f, x, v) for x, b in f.phi_inc(i) if b in S.L.loops[i.bb]): return [("counter", v, i.bb)]
        return [o for x, b in f.phi_inc(i) for o in origins(S, x, d + 1, seen)]
    if i.op == "select": return origins(S, i.ops[1], d + 1, seen) + origins(S, i.ops[2], d + 1, seen)
    if i.op == "load":
        b, o = f.base_off(i.ops[0]); j = f.inst(b)
        if j is not None and j.op == "alloca" and j.d.get("aty", "")[:1] == "i":
            out = []
            for st in f.all():
                if st.op == "store" and f.base_off(st.ops[1])[0] == b: out += origins(S, st.ops[0], d + 1, seen)
            return out
        if j is not None and j.is_call() and re.search(r"iterator|_Rb_tree|_Node", j.dem): return [("element", (j, o), None)]
        if j is not None and j.op == "alloca" and "std::pair" in j.d.get("aty", ""): return [("element", (j, o), None)]
        return []
    if i.is_call() and re.search(r"::size\(\)", i.dem): return [("size", v, None)]
    return []
def step1(f, x, v):
    i = f.inst(x)
    return i is not None and i.op == "add" and v in i.ops and any(o[0] == "c" for o in i.ops)

def loopbound(S, h, u, v):
    """container whose size() bounds the loop counter at the use"""
    f = S.f; body = S.L.loops[h]
    for b in body:
        t = f.blocks[b].term
        if t.op != "br" or len(t.d["succ"]) != 2: continue
        c = f.inst(t.ops[0])
        if c is None or c.op != "icmp": continue
        for x, y in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
            j = f.inst(x)
            while j is not None and j.op in CAST: x = j.ops[0]; j = f.inst(x)
            if x != v: continue
            z = f.inst(y)
            while z is not None and z.op in CAST: z = f.inst(z.ops[0])
            if z is not None and z.is_call() and re.search(r"::size\(\)", z.dem): return f.base_off(z.args[0])[0]
    return None

def requested(S):
    f = S.f
    return set()

def recorded(S, el):
    """(insertion, value) pairs that can be read back from this element of a set / map (offset 8: the second member)"""
    f = S.f; j, off = el; out = []
    for u in f.calls():
        if not u.callee or u.bb not in S.R: continue
        if re.search(r"std::pair<.*>::pair<.*\(|std::make_pair<", u.dem) and any(True for w in uses_as_insert(f, f.base_off(u.args[0])[0])):
            k = 2 if off == 8 else 1
            if k < len(u.args):
                b = f.base_off(u.args[k])[0]
                for st in f.all():
                    if st.op == "store" and f.base_off(st.ops[1])[0] == b: out.append((u, st.ops[0], None))
        elif re.search(r"std::(set|map|multimap|multiset)<.*::(emplace|try_emplace)<", u.dem) and len(u.args) > (2 if off == 8 else 1):
            b = f.base_off(u.args[-1] if off == 8 else u.args[-2])[0]
            for st in f.all():
                if st.op == "store" and f.base_off(st.ops[1])[0] == b: out.append((u, st.ops[0], None))
    return out
def uses_as_insert(f, b):
    return [u for u in f.calls() if u.callee and re.search(r"::(insert|emplace)(\(|<)", u.dem) and any(f.base_off(a)[0] == b for a in u.args[1:])]

def nonempty_when(S, u, grows):
    """the value for 'none' is only used when a table of started work has more than a positive number of entries and every
    round that starts work records it while at most one record is dropped and only in such rounds: there is a record then.
    True / False / None (not judged)"""
    f = S.f
    ins = [x for x in f.calls() if x.callee and x.bb in S.R and re.search(r"std::(set|map)<.*::(insert|emplace)(\(|<)", x.dem)]
    ers = [x for x in f.calls() if x.callee and x.bb in S.R and re.search(r"std::(set|map)<.*::erase(\(|<)|std::(set|map)<.*::clear\(", x.dem)]
    if not ins: return None
    # guard: size() of a growing table above a constant >= 1
    guarded = False
    for p, z in S.L.dominating_edges(u.bb):
        t = f.blocks[p].term
        if t.op != "br": continue
        c = f.inst(t.ops[0])
        if c is None or c.op != "icmp": continue
        j = f.inst(c.ops[0])
        if j is not None and j.is_call() and re.search(r"::size\(\)", j.dem) and c.ops[1][0] == "c":
            d = f.base_off(j.args[0])[0]; k = int(c.ops[1][1]); pred = c.d["pred"]; tr = z == t.d["succ"][0]
            low = k + 1 if (pred == "ugt" and tr or pred == "ule" and not tr) else k if (pred == "uge" and tr or pred == "ult" and not tr or pred == "eq" and tr) else None
            if low is not None and low >= 2 and d in grows: guarded = True; table = d
            # a direct test that the set is not empty
        if c.op == "icmp" and j is not None and j.is_call() and re.search(r"std::(set|map)<.*::size\(\)", j.dem): return True
    for p, z in S.L.dominating_edges(u.bb):
        c = f.inst(f.blocks[p].term.ops[0]) if f.blocks[p].term.op == "br" else None
        if c is not None and c.is_call() and re.search(r"::empty\(\)", c.dem): return True
        if c is not None and c.op == "xor":
            q = f.inst(c.ops[0])
            if q is not None and q.is_call() and re.search(r"::empty\(\)", q.dem): return True
        if c is not None and c.op == "icmp" and c.ops[1] in (("c", "-1", 64), ("c", "18446744073709551615", 64)) and c.d["pred"] in ("eq", "ne"): return True
    if not guarded: return False
    # every growth of the table is accompanied by a record, and a record is dropped only under the guard
    ok = all(any(f.dominates(x.bb, g.bb) and sameround(f, x, g) for x in ins) for g in grows[table])
    ok = ok and all(any(f.dominates(g.bb, x.bb) for g in grows[table]) and f.dominates(u.bb, x.bb) or x.bb == u.bb for x in ers)
    return ok
