from .. import ir
from ..ir import Broken, short
from ..paths import *
from ..fin import *
from .v05 import func, successes, strip, cfields

SIZE, MAXD = 100, 1024
def encoder(f, offs):
    def hook(S, p, i):
        if i.callee != "bqfc_compr": return None
        a = [S.val(p, x) for x in i.args]
        r, o = S.obj2(p, i.args[0])
        for k, z in enumerate(offs): p.mem[(r, o + z)] = ("compr", k)
        p.mem[(r, o + offs[-1] + 16)] = ("w", ("compr", "b_sign"))
        p.env[i.i] = ("ret", i.i, "bqfc_compr", ()); p.events.append(("call", i, a))
        return True
    return Paths(f, hook=hook)

def bits_domain(R):
    return range(1, MAXD + 1) if R.tier == "thorough" else [b for k in range(32, MAXD + 1, 32) for b in (k - 31, k)]

def run(R):
    R.rule("V06.layout", "encoder and decoder place every field at the same offset with the same width and byte order, for every discriminant size and common-factor size", floor=100)
    R.rule("V06.write", "the encoder writes exactly the 100 bytes of the form: every byte is set and nothing outside is touched", floor=100)
    R.rule("V06.read", "the decoder reads inside the 100 bytes", floor=100)
    R.rule("V06.flags", "sign and special-form flags use the same bits in both directions", floor=4)
    R.rule("V06.strict", "in strict mode decompression rejects |b| > a", floor=1)
    fe = func("bqfc", lambda n, d: n == "bqfc_serialize", lambda n, d: n == "bqfc_compr")
    fd = func("bqfc", lambda n, d: n == "bqfc_deserialize", lambda n, d: n in ("bqfc_decompr", "bqfc_serialize"))
    offs = cfields(fe)
    E = encoder(fe, offs); D = Paths(fd, sigs={"bqfc_decompr": "ooinn", "bqfc_serialize": "Wiin"})
    for f, X in ((fe, E), (fd, D)): R.saw("functions", f.dem); R.saw("paths", "%s: %d" % (f.dem, len(X.done)))
    enc = list(successes(E)); dec = list(successes(D))
    decs = []
    for p in dec:
        c = next((e for e in p.events if e[0] == "call" and e[1].callee == "bqfc_decompr"), None)
        if c is not None: decs.append((p, c[2][3]))
    encn = [p for p in enc if any(e[0] == "call" and e[1].callee == "bqfc_compr" for e in p.events)]
    encs = [p for p in enc if p not in encn]; decsp = [p for p in dec if all(p is not q for q, _ in decs)]
    if not encn or not decs: raise Broken("no encoding or decoding path")
    w = "%s:%d" % (ir.rel(fe.file), fe.line); wd = "%s:%d" % (ir.rel(fd.file), fd.line)
    OUT, BITS = ("a", 0), ("a", 3); STR, DB = ("a", 3), ("a", 5)
    GS = ("call", "sizeinbase", ("compr", 2), ("k", 2))
    # ------------------------------------------------------------ encoder fields, grouped by identical export structure
    dmaps = [decfields(p, c, offs, STR) for p, c in decs]
    egroups = {}; ok_ = {id(p) for p in enc}
    efail = {}
    for p in E.done:
        if id(p) in ok_: continue
        ex = [e for e in p.events if e[0] == "call" and e[1].callee == "__gmpz_export"]
        if ex: efail.setdefault(repr([(e[2][0], e[3]) for e in ex]) + repr(list(p.facts.items())[-2:]), (p, ex))
    for p in encn:
        ex = [e for e in p.events if e[0] == "call" and e[1].callee == "__gmpz_export"]
        egroups.setdefault(repr([(e[2][0], e[3]) for e in ex]), []).append((p, ex))
    prob = set(); ncase = 0; seenG = 0
    B1 = ("ld", ("in", STR, 1), "i8"); B0 = ("ld", ("in", STR, 0), "i8")
    for bits in bits_domain(R):
        for G in range(0, 40):
            okE = False; layouts = set()
            for g in egroups.values():
                p, ex = g[0]
                for sg in (8 * G + 1, 8 * G + 8):
                    env = {BITS: bits, GS: sg}; memo = memo_for(env)
                    if sg > 1024: continue
                    live = [q for q, _ in g if feasible(q, env, {})]
                    if not live: continue
                    okE = True
                    lay = []
                    for e in ex:
                        r, o = addr(e[2][0], env, memo)
                        n = e[3][-1]
                        lay.append((n[1] if n[0] == "compr" else repr(n)[:40], o if r == OUT else None, tuple(kk(x) for x in e[3][:2]) + (kk(e[3][3]),)))
                    layouts.add(tuple(lay))
                    # header byte
                    hb = set()
                    for q in live:
                        t = q.mem.get((OUT, 1)); hb.add(None if t is None else ev(t[1], env, {}))
                    if hb != {G}: prob.add("the encoder's size byte is not the size of the common factor minus one")
                    writes(prob, live, lay, env, OUT, bits, G)
            failing(prob, efail, bits, G, BITS, GS, OUT)
            if not okE: continue
            ncase += 1
            # the decoder must accept this header and read the same fields
            envd = {DB: bits, B1: G, ("a", 4): SIZE}
            live = [(p, c, m) for (p, c), m in zip(decs, dmaps) if feasible(p, envd, {})]
            if not live: prob.add("the decoder rejects a common-factor size the encoder produces (d_bits %d, g_size %d)" % (bits, G)); continue
            for p, c, m in live:
                memo = {}
                got = {}
                for k, (ptr, cnt, fmt) in m.items():
                    r, o = addr(ptr, envd, memo); got[k] = (o if r == STR else None, ev(cnt, envd, memo), fmt)
                for lay in layouts:
                    widths = {}
                    for x, y in zip(lay, lay[1:] + ((None, total(bits), None),)): widths[x[0]] = (x[1], None if y[1] is None or x[1] is None else y[1] - x[1], x[2])
                    if set(widths) != set(got): prob.add("encoder and decoder handle different fields")
                    elif widths != got:
                        k = next(k for k in got if got[k] != widths[k])
                        prob.add("field %s: encoder offset/width/format %s, decoder %s (d_bits %d, g_size %d)" % ("atgb"[k] if isinstance(k, int) else k, widths[k], got[k], bits, G) if len(prob) < 3 else "field %s differs" % k)
                    want = {0: (2, bits32(bits) // 16 - G), 1: (2 + bits32(bits) // 16 - G, bits32(bits) // 32 - G), 2: (2 + bits32(bits) * 3 // 32 - 2 * G, G + 1), 3: (3 + bits32(bits) * 3 // 32 - G, G + 1)}
                    if {k: v[:2] for k, v in got.items()} != want or any(v[2] != (-1, 1, 0) for v in got.values()): prob.add("the layout is not the published one: a', t', g, b0, least significant byte first")
                R.ok("V06.layout", "d_bits=%d g_size=%d: %s" % (bits, G, sorted(got.items())))
        # the decoder's reads, for every header byte it accepts
        for G in range(0, 256):
            envd = {DB: bits, B1: G, ("a", 4): SIZE}
            for (p, c), m in zip(decs, dmaps):
                if not feasible(p, envd, {}): continue
                for k, (ptr, cnt, fmt) in m.items():
                    r, o = addr(ptr, envd); n = ev(cnt, envd)
                    if r != STR or o is None or n is None or o < 0 or n > SIZE or o + n > SIZE:
                        R.bad("V06.read", wd, "the decoder reads outside the 100 bytes (d_bits %d, header byte %d)" % (bits, G), key="read outside")
                    else: R.ok("V06.read", "d_bits=%d header=%d field %s at %d+%d" % (bits, G, k, o, n))
                break
    WR = ("is not initialised", "outside the form", "not limited to its width")
    for q in sorted(prob):
        rid = "V06.write" if any(x in q for x in WR) else "V06.layout"
        R.bad(rid, w, q, key="%s" % q.split("(")[0].strip() if rid == "V06.write" else q.split(":")[0].split("(")[0])
    if not any(any(x in q for x in WR) for q in prob):
        for k in range(ncase): R.ok("V06.write", "case %d" % k)
    # ------------------------------------------------------------ flags
    fl(R, encn, encs, decs, decsp, offs, OUT, STR, w)
    # ------------------------------------------------------------ strict gate
    fz = func("bqfc", lambda n, d: n == "bqfc_decompr", lambda n, d: False)
    PT = Paths(fz); n = 0; bad = False
    for p in successes(PT):
        if strictness(p, ("a", 4)) is False: continue
        n += 1; rel = relations(p); A, B = PT.mget(p, (("a", 0), 0)), PT.mget(p, (("a", 1), 0))
        if not (A == B or holds(rel, "le", ("abs", B), ("abs", A)) or holds(rel, "le", ("abs", B), A)): bad = True
    R.check("V06.strict", n and not bad, "%s:%d" % (ir.rel(fz.file), fz.line), "in strict mode a form with |b| > a can be decoded", inst="%d strict success paths" % n, key="strict gate")

def strictness(p, v):
    for t, b in p.facts.items():
        n = t; neg = False
        if n[0] == "icmp" and n[3] == ("k", 0) and n[1] in ("eq", "ne") and strip(n[2]) == v: return b if n[1] == "ne" else not b
        if strip(n) == v: return b
        if n[0] == "and" and any(strip(x) == v for x in n[1:3]): return b if b else None
    return None

def kk(t): return t[1] if t[0] == "k" else repr(t)
def bits32(b): return (b + 31) // 32 * 32
def total(bits): return (bits + 31) // 32 * 3 + 4

def decfields(p, c, offs, STR):
    """field index -> (source pointer, byte count, format) from the structure handed to decompression"""
    r, o = c[1], c[2]; out = {}
    for k, z in enumerate(offs):
        t = p.mem.get((r, o + z))
        if t is None: raise Broken("decoder leaves a field unset")
        if t[0] == "P" and len(t[1]) == 1 and t[1][0][1] == -1: t = t[1][0][0][0]
        if t[0] != "import": raise Broken("decoder field does not come from the input bytes")
        ins = t[2:]
        out[k] = (ins[5], ins[0], (kk(ins[1]), kk(ins[2]), kk(ins[4])))
    return out

def writes(prob, live, lay, env, OUT, bits, G):
    """every feasible path fills exactly [0,100)"""
    tot = total(bits)
    for p in live:
        ex = [e for e in p.events if e[0] == "call" and e[1].callee == "__gmpz_export"]
        offs_ = [l[1] for l in lay] + [tot]
        # bytes the export of each field may produce on this path: bounded by its width
        opts = []
        for k, e in enumerate(ex):
            if None in (offs_[k], offs_[k + 1]): prob.add("a field is written outside the form"); return
            wd = offs_[k + 1] - offs_[k]
            if wd < 0 or wd > 100: prob.add("a field is written outside the form"); return
            n = e[3][-1]; SB = ("call", "sizeinbase", n, ("k", 2)); WB = ("export", "W", e[1].i)
            ok = []
            for b in sorted({1, max(wd - 1, 1), wd, wd + 1}):
                if n == ("compr", 2) and b != G + 1: continue
                v2 = dict(env); v2[SB] = 8 * b; v2[WB] = b
                if feasible(p, v2, {}): ok.append(b)
            if n == ("compr", 2) and not ok: return     # this path is not taken for this common factor
            if any(b > wd for b in ok): prob.add("the bytes of field %s are not limited to its width" % k); return
            opts.append((SB, WB, ok))
        if any(not o[2] for o in opts): continue        # path impossible
        # fields are independent: vary one at a time from the first feasible choice
        base = dict(env)
        for SB, WB, ok in opts: base[SB] = 8 * ok[0]; base[WB] = ok[0]
        combos = [base] + [dict(base, **{}) | {SB: 8 * b, WB: b} for SB, WB, ok in opts for b in ok[1:]]
        for v in combos:
            if not feasible(p, v, {}): continue
            memo = memo_for(v); cov = set()
            for e in p.events:
                if e[0] == "store" and e[2] == OUT: cov.add(e[3]) if e[3] is not None else None
                elif e[0] == "store" and e[2][0] == "elem":
                    r, o = addr(("ptr", e[2], e[3]), v, memo)
                    if r == OUT and o is not None: cov.add(o)
                elif e[0] == "call" and e[1].callee == "__gmpz_export":
                    r, o = addr(e[2][0], v, memo); cov |= set(range(o, o + v[("export", "W", e[1].i)]))
                elif e[0] == "call" and (e[1].callee or "").startswith(("llvm.memset", "memset")):
                    r, o = addr(e[2][0], v, memo); n = ev(e[2][2], v, memo)
                    if r != OUT: continue
                    if o is None or n is None or n > 200: prob.add("a fill of unknown extent is not inside: outside the form"); return
                    cov |= set(range(o, o + n))
            if cov - set(range(SIZE)): prob.add("the encoder writes outside the form (d_bits %d, g_size %d)" % (bits, G)); return
            if cov != set(range(SIZE)): prob.add("byte %d of the form is not initialised (d_bits %d, g_size %d)" % (min(set(range(SIZE)) - cov), bits, G)); return

def failing(prob, efail, bits, G, BITS, GS, OUT):
    """a failing encoder has not written outside the form before it gives up"""
    for p, ex in efail.values():
        e = ex[-1]; n = e[3][-1]; SB = ("call", "sizeinbase", n, ("k", 2)); WB = ("export", "W", e[1].i)
        for sg in ((8 * G + 1,) if n != ("compr", 2) else (8 * G + 8,)):
            env = {BITS: bits, GS: sg}
            if not feasible(p, env): continue
            r, o = addr(e[2][0], env, memo_for(env))
            if r != OUT or o is None or o > SIZE or o < 0: prob.add("a failing encoder has written outside the form"); return
            for b in (SIZE - o + 1, SIZE + 300):
                v = dict(env); v[SB] = 8 * b; v[WB] = b
                if n == ("compr", 2) and b != G + 1: continue
                if feasible(p, v): prob.add("a failing encoder has written outside the form"); return

def fl(R, encn, encs, decs, decsp, offs, OUT, STR, w):
    B0 = ("ld", ("in", STR, 0), "i8"); TS = ("msize", ("compr", 1)); BS = ("compr", "b_sign")
    for bs in (0, 1):
        for tn in (0, 1):
            vals = set()
            for p in encn:
                env = {BS: bs, TS: (1 << 32) - 1 if tn else 1}
                if not feasible(p, env, {}): continue
                t = p.mem.get((OUT, 0)); v = ev(t[1], env, {}) if t is not None and t[0] == "w" else None
                vals.add(v & 255 if v is not None else None)
            good = len(vals) == 1 and None not in vals
            R.check("V06.flags", good, w, "the encoder's flag byte is not determined by the two signs", inst="flag byte for b_sign=%d t_neg=%d: %s" % (bs, tn, vals), key="flag byte")
            if not good: continue
            v = vals.pop(); n = 0
            R.check("V06.flags", v == bs + 2 * tn, w, "the sign flags are not the published ones", inst="flag byte %d" % v, key="flag value")
            R.check("V06.flags", v & 12 == 0, w, "the encoder's sign flags collide with the special-form flags", inst="flag byte %d" % v, key="collision")
            for p, c in decs:
                env = {B0: v}
                if not feasible(p, env, {}): continue
                n += 1; r, o = c[1], c[2]
                t = p.mem.get((r, o + offs[1])); neg = t[0] == "P"
                b = p.mem.get((r, o + offs[-1] + 16)); bv = ev(b[1], env, {}) if b is not None and b[0] == "w" else None
                R.check("V06.flags", bv is not None and bv & 1 == bs and neg == bool(tn), w, "the decoder reads the sign flags differently from how the encoder writes them", inst="flag byte %d decodes to the same signs" % v, key="sign flags differ")
            R.check("V06.flags", n > 0, w, "no decoding path accepts the encoder's flag byte", inst="accepted", key="flags rejected")
    # special forms
    seen = set()
    for p in encs:
        t = p.mem.get((OUT, 0)); v = ev(t[1], {}, {}) if t is not None and t[0] == "w" else None
        rel = relations(p); A, B = ("in", ("a", 1), 0), ("in", ("a", 2), 0)
        two = holds(rel, "eq", A, pk(2)); cov = set()
        R.check("V06.flags", holds(rel, "eq", B, pk(1)) and holds(rel, "le", A, pk(2)), w, "a form other than identity or generator is written as a special form", inst="special form operands", key="special operands")
        for e in p.events:
            if e[0] == "store" and e[2] == OUT: cov.add(e[3])
            elif e[0] == "call" and (e[1].callee or "").startswith(("llvm.memset", "memset")):
                r, o = addr(e[2][0], {}); n = ev(e[2][2], {})
                if r == OUT and o is not None and n is not None and n <= 200: cov |= set(range(o, o + n))
        R.check("V06.write", cov == set(range(SIZE)), w, "a special form does not initialise exactly the 100 bytes", inst="special form", key="special fill")
        got = set()
        for q in decsp:
            if v is not None and feasible(q, {B0: v}, {}): got.add((kval(q.mem.get((("a", 0), 0), ("?",))), kval(q.mem.get((("a", 1), 0), ("?",)))))
        R.check("V06.flags", got == {(2 if two else 1, 1)}, w, "a special form does not decode to the form that was encoded", inst="special %s decodes to %s" % (v, got), key="special decode")
        seen.add(two)
        R.check("V06.flags", v == (8 if two else 4), w, "the special-form flag is not the published one", inst="special flag %s" % v, key="special flag value")
    R.check("V06.flags", seen == {True, False}, w, "identity and generator are not both encoded as special forms", inst="both special forms", key="special forms")
