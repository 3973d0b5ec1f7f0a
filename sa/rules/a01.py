import itertools, re
from .. import ir, fin
from ..ir import Broken, short
from ..paths import *
from ..guard import Guard

SSE_OK = re.compile(r"^(MULX|ADCX|ADOX|SARX|SHLX|SHRX|RORX|BZHI|LZCNT|TZCNT|ANDN|PDEP|PEXT|V[A-Z0-9]{3,})\b")
FLAGS = {"bAVX2": "AVX2", "enable_avx512_ifma": "AVX-512 IFMA"}

def is_load(i, g):
    if i.is_call() and i.args and short(i.dem).rsplit("::", 1)[-1].replace("operator bool", "operator") in ("load", "operator") or i.is_call() and "operator bool" in i.dem:
        return bool(i.args) and i.args[0][:2] == ("g", g)
    return i.op in ("load", "atomicload") and bool(i.ops) and i.ops[0][:2] == ("g", g)
def stored(i, g):
    """the value an instruction stores into flag g, or None"""
    if i.is_call() and len(i.args) >= 2 and i.args[0][:2] == ("g", g):
        n = short(i.dem).rsplit("::", 1)[-1]
        if n in ("store", "operator=", "exchange"): return i.args[1]
    if i.op in ("store", "atomicstore") and len(i.ops) == 2 and i.ops[1][:2] == ("g", g): return i.ops[0]
    return None

def run(R):
    R.rule("A01.call", "every call of AVX2 / AVX-512 code is reached only after the corresponding run-time flag was read as true (tested locally, in a boolean helper, or by every caller)", floor=5)
    R.rule("A01.detect", "the flag is only set when every required CPUID feature bit and register-state bit is set; the disable setting always wins; the force setting never overrides the operating system's register state", floor=20)
    R.rule("A01.store", "the flags start false and only the detection routine sets them to something that can be true", floor=2)
    R.rule("A01.gen", "the assembly generator emits instructions beyond the baseline only when generating for a machine that has them", floor=20)
    R.rule("A01.mode", "whenever the generator may emit such instructions the routines it writes carry the machine-specific prefix", floor=2)
    for tu in ("vdf_client", "vdf_base", "vdf_base_hw", "fastvdf", "c_wrapper"):
        M = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
        calls(R, tu, M)
    detect(R, "vdf_client")
    generator(R)

def calls(R, tu, M):
    for g, feat in FLAGS.items():
        G = None
        for f in M.funcs.values():
            for i in f.calls():
                c = i.callee or ""
                if g == "bAVX2" and not (c.startswith("asm_avx2_func") or c.startswith(("llvm.x86.avx2", "llvm.x86.avx.", "llvm.x86.fma"))): continue
                if g != "bAVX2" and not (c.startswith("asm_avx512_func") or c.startswith("llvm.x86.avx512")): continue
                if G is None: G = Guard(M, lambda f, i, t: t and is_load(i, g))
                R.saw("call sites", "%s %s" % (i.where(), c))
                ch = G.open_path(i)
                R.check("A01.call", ch is None, i.where(), "%s code %s is called without the run-time check (path: %s)" % (feat, c, " <- ".join(x.fn.short for x in ch or [])), inst="%s: %s in %s" % (tu, c, f.short), key="%s in %s" % (c, f.short))
        gl = next((v for k, v in M.globals.items() if k == g), None)
        if gl is None: continue
        if gl["init"] != ["z"] and not gl["decl"]: R.bad("A01.store", gl["file"], "flag %s does not start false" % g)
        for f in M.funcs.values():
            if any(i.is_call() and i.d.get("cv", [""])[0] == "asm" and "cpuid" in i.d["cv"][1] for i in f.all()): continue
            for i in f.all():
                v = stored(i, g)
                if v is None: continue
                R.check("A01.store", v[0] == "c" and int(v[1]) == 0 or v == ("z",), i.where(), "flag %s is set outside the detection routine" % g)
        R.ok("A01.store", "%s: flag %s" % (tu, g))

def is_str_bool(m, d): return d.endswith("(char const*)")

def detect(R, tu):
    env_fns = set()
    L = ir.listing(tu)
    Mn = ir.view(tu, allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    roots = [f for f in Mn.funcs.values() if any(stored(i, "bAVX2") is not None for i in f.all())]
    if not roots: raise Broken("nothing stores the AVX2 flag")
    # the detection routine: the function call_once runs (a root not called by another function)
    names = {f.name for f in roots}
    called = {i.callee for f in Mn.funcs.values() for i in f.calls()}
    top = names
    for _ in range(4):
        up = {f.name for f in Mn.funcs.values() for i in f.calls() if i.callee in top and not any(is_load(x, "bAVX2") and x.bb != i.bb and x.fn.ret == "i1" for x in f.all()) and f.ret == "void"}
        if not up: break
        top = up
    if len(top) != 1: raise Broken("detection routine not identified: %s" % sorted(top))
    top = next(iter(top))
    M = ir.view_if(tu, lambda f, m, d: m == top, lambda f, m, d: is_str_bool(m, d) or "()" in d and m in Mn.funcs and Mn.funcs[m].ret == "i1" and any(i.callee in Mn.funcs and is_str_bool("", Mn.funcs[i.callee].dem) for i in Mn.funcs[m].calls()))
    f = M.funcs[top]; w = "%s:%d" % (ir.rel(f.file), f.line)
    rec = {g: {} for g in FLAGS}; flagname = {}; cpuid = {}; xcr = {}; cur = {}
    def hook(S, p, i):
        cv = i.d.get("cv")
        if cv and cv[0] == "asm":
            t = ("asm", i.i)
            if "cpuid" in cv[1]:
                a = [S.val(p, x) for x in i.args]
                cpuid[t] = a[0][1] if a and a[0][0] == "k" else None
            elif "0x0f, 0x01, 0xd0" in cv[1] or "xgetbv" in cv[1]: xcr[t] = True
            p.env[i.i] = t; p.events.append(("call", i, [])); return True
        for g in FLAGS:
            v = stored(i, g)
            if v is not None:
                t = S.val(p, v, 1)
                fs = frozenset((a, b) for a, b in p.facts.items() if relevant(a))
                rec[g].setdefault((fs, t), i); p.mem[("flag", g)] = t; return True
            if is_load(i, g): p.env[i.i] = p.mem.get(("flag", g), ("k", 0)); return True
        if i.callee and is_str_bool("", i.dem) and i.args and i.args[0][0] == "g":
            gl = M.globals.get(i.args[0][1])
            if gl and gl["init"] and gl["init"][0] == "s":
                t = ("flagenv", gl["init"][1].rstrip("\0")); p.env[i.i] = t; p.events.append(("call", i, [])); return True
    def relevant(t):
        if not isinstance(t, tuple): return False
        if t and t[0] in ("asm", "flagenv"): return True
        return any(relevant(x) for x in t)
    PT = Paths(f, hook=hook)
    R.saw("paths", "%s: %d" % (f.short, len(PT.done)))
    leaf = {v: k for k, v in cpuid.items()}
    for n in (1, 7):
        if n not in leaf: raise Broken("CPUID leaf %d is not read" % n)
    if len(xcr) != 1: raise Broken("extended state register is not read exactly once")
    X = next(iter(xcr))
    BITS = {"OSXSAVE": ("r1", 2, 27), "AVX": ("r1", 2, 28), "AVX2": ("r7", 1, 5), "ADX": ("r7", 1, 19), "AVX512F": ("r7", 1, 16), "AVX512IFMA": ("r7", 1, 21),
            "XMM state": ("x", 0, 1), "YMM state": ("x", 0, 2), "opmask state": ("x", 0, 5), "ZMM_Hi256 state": ("x", 0, 6), "Hi16_ZMM state": ("x", 0, 7)}
    NEED = {"bAVX2": (["AVX", "AVX2", "ADX"], ["OSXSAVE", "XMM state", "YMM state"]),
            "enable_avx512_ifma": (["AVX", "AVX512F", "AVX512IFMA"], ["OSXSAVE", "XMM state", "YMM state", "opmask state", "ZMM_Hi256 state", "Hi16_ZMM state"])}
    ENV = {"bAVX2": ("CHIA_DISABLE_AVX2", "CHIA_FORCE_AVX2", None), "enable_avx512_ifma": ("CHIA_DISABLE_AVX512_IFMA", "CHIA_FORCE_AVX512_IFMA", "CHIA_ENABLE_AVX512_IFMA")}
    names = sorted({e for v in ENV.values() for e in v if e})
    base = {"r1": leaf[1], "r7": leaf[7], "x": X}
    def env(off, flags):
        e = {}
        for r, t in base.items():
            for k in range(4):
                v = 0xffffffff
                for b in off:
                    if BITS[b][0] == r and BITS[b][1] == k: v &= ~(1 << BITS[b][2])
                e[("ev", t, (k,))] = v
        for n in names: e[("flagenv", n)] = int(n in flags)
        return e
    bits = sorted(BITS)
    offs = [()] + [(b,) for b in bits] + list(itertools.combinations(bits, 2))
    if R.tier == "thorough": offs = [c for k in range(len(bits) + 1) for c in itertools.combinations(bits, k)]
    for g in FLAGS:
        if not rec[g]: raise Broken("no store to %s found" % g)
        live = [(list(fs), t, i) for (fs, t), i in rec[g].items() if t != ("k", 0)]
        dis, force, enable = ENV[g]; cpu, os_ = NEED[g]
        bad = {}; n = 0; some = False
        use = [x for x in ENV[g] if x]
        for fl in (c for k in range(len(use) + 1) for c in itertools.combinations(use, k)):
            # settings of the other feature must not matter: try all on and all off
            for other in ((), tuple(x for x in names if x not in use)):
                for off in offs:
                    e = env(off, fl + other); memo = fin.memo_for(e); n += 1
                    val = False; where = None
                    for fs, t, i in live:
                        if any(v is not None and bool(v & 1) != tr for v, tr in ((fin.ev(a, e, memo), tr) for a, tr in fs)): continue
                        v = fin.ev(t, e, memo)
                        if v is None or v & 1: val = True; where = i; break
                    if not val: continue
                    some = True
                    if dis in fl: bad.setdefault("%s is set although %s is given" % (g, dis), where)
                    if enable and enable not in fl and force not in fl: bad.setdefault("%s is set without being asked for" % g, where)
                    for b in off:
                        if b in os_ or b in cpu and force not in fl: bad.setdefault("%s is set although the %s bit is missing%s" % (g, b, " (forced)" if force in fl else ""), where)
        if not some: raise Broken("%s can never be set" % g)
        for b, i in bad.items(): R.bad("A01.detect", i.where(), b)
        for b in cpu + os_: R.ok("A01.detect", "%s requires %s" % (g, b))
        for x in use: R.ok("A01.detect", "%s: setting %s" % (g, x))
        R.ok("A01.detect", "%s: %d machine/setting combinations folded over %d store conditions" % (g, n, len(rec[g])))

def generator(R):
    M = ir.view("compile_asm", allf=True, inline=False, cg=True, passes=ir.SSA_ONLY)
    GEN = ("enable_all_instructions", "use_divide_table")
    def base(f, i, t): return t and any(is_load(i, g) or i.op == "load" and i.ops[0][:2] == ("g", g) for g in GEN)
    main = [f for f in M.funcs.values() if f.short == "main"]
    if len(main) != 1: raise Broken("generator main not found")
    main = main[0]
    ex = [f for f in M.funcs.values() if "avx512" in f.short]     # written only into the avx512 file; its own rule below
    G = Guard(M, base)
    # functions reachable without entering the AVX-512 generator
    seen = set(); st = [main.name]; exn = {f.name for f in ex}
    while st:
        n = st.pop()
        if n in seen or n in exn or n not in M.funcs: continue
        seen.add(n)
        for i in M.funcs[n].all():
            if i.callee: st.append(i.callee)
            for v in list(i.ops) + list(i.args):
                if v and v[0] in ("g", "F"): st.append(v[1])
    for n in sorted(seen):
        for i in M.funcs[n].all():
            for v in list(i.ops) + list(i.args):
                if not (v and v[0] == "g"): continue
                gl = M.globals.get(v[1])
                if not gl or not gl.get("init") or gl["init"][0] != "s": continue
                mn = SSE_OK.match(gl["init"][1])
                if not mn: continue
                R.saw("emitted instructions", "%s %s" % (i.where(), mn.group(1)))
                ch = G.open_path(i)
                R.check("A01.gen", ch is None, i.where(), "%s is emitted in %s without a check that the target has it" % (mn.group(1), i.fn.short), key="%s in %s" % (mn.group(1), i.fn.short))
    # mode: a generator call is reached with the flags on only after the prefix was set
    flow(R, M, main, GEN)

def flow(R, M, main, GEN):
    """forward dataflow over main: set of (flags may be on, prefix) states at every generator call"""
    IN = {0: frozenset([(False, "")])}; st = [0]; hits = []
    def step(i, states):
        for g in GEN:
            if i.op == "store" and i.ops[1][:2] == ("g", g):
                return frozenset((not (i.ops[0][0] == "c" and int(i.ops[0][1]) == 0), p) for f, p in states)
        if i.is_call() and i.args and i.args[0][0] == "g" and M.globals.get(i.args[0][1], {}).get("diname", "").startswith("asmprefix") and "operator=" in i.dem + "operator=" * ("assign" in i.dem):
            s = i.args[1] if len(i.args) > 1 else None
            gl = M.globals.get(s[1]) if s and s[0] == "g" else None
            return frozenset((f, gl["init"][1].rstrip("\0") if gl and gl.get("init") and gl["init"][0] == "s" else "?") for f, p in states)
        if i.is_call() and i.callee in M.funcs and ("compile_asm" in short(i.dem)): hits.append((i, states))
        return states
    while st:
        b = st.pop(); s = IN[b]
        for i in main.blocks[b].insts: s = step(i, s)
        for z in main.blocks[b].succ:
            n = IN.get(z, frozenset()) | s
            if n != IN.get(z): IN[z] = n; st.append(z)
    last = {}
    for i, s in hits: last[i.i] = (i, s)
    for i, s in last.values():
        want = "avx512_" if "avx512" in short(i.dem) else None
        for on, p in sorted(s):
            if want and p != want and not (on and p != ""): pass
            ok = not on or p in ("avx2_", "avx512_")
            if want and on and p == "avx512_": ok = True
            R.check("A01.mode", ok, i.where(), "%s is generated with extended instructions under the prefix '%s'" % (short(i.dem), p), inst="%s extended=%s prefix=%s" % (short(i.dem), on, p), key="mode %s %s" % (short(i.dem), p))
