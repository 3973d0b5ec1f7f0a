"""C03: GIL typestate over every Python binding."""
from .. import ir
from ..ir import Broken, short

HEAVY = ("FastPowFormNucomp", "HashPrime", "nudupl_form", "nucomp_form", "qfb_nudupl", "qfb_nucomp", "ProveSlow", "VerifyWesolowskiProof")

def run(R):
    R.rule("C03.no-python", "no call that can reach the Python C API is made while the GIL is released", floor=30)
    R.rule("C03.heavy-released", "every call that can reach class-group exponentiation, squaring or hash-to-prime is made with the GIL released", floor=7)
    R.rule("C03.reacquired", "the GIL is held again at every exit (normal and exceptional) of a binding", floor=10)
    m = ir.view_if("fastvdf", lambda f, mm, d: f.endswith("fastvdf.cpp") and "operator()" in d, lambda f, mm, d: not f.endswith("fastvdf.cpp"))
    # reference graph over the whole unit (before inlining)
    g = ir.view("fastvdf", inline=False, cg=True, passes="")
    py = {n for n in g.decls if n.startswith(("Py", "_Py")) and n != "PyInit__chiavdf"}
    py |= {e for v in g.edges.values() for e in v if e.startswith(("Py", "_Py")) and e not in g.edges}
    sh = {n: short(d["dem"]) for n, d in g.decls.items()}
    heavy = {n for n in g.edges if sh.get(n) in HEAVY}
    if len(heavy) < 4: raise Broken("class-group primitives not found")
    def closure(targets):
        rev = {}
        for a, bs in g.edges.items():
            for b in bs: rev.setdefault(b, []).append(a)
        seen = set(targets); st = list(targets)
        while st:
            for z in rev.get(st.pop(), ()):
                if z not in seen: seen.add(z); st.append(z)
        return seen
    PY = closure(py); HV = closure(heavy)
    # exceptions translated lazily: constructing std exceptions never touches Python
    n = 0
    for f in m.funcs.values():
        n += 1
        R.saw("bindings", "lambda@%s:%d" % (ir.rel(f.file), f.line))
        analyse(R, f, PY, HV)
    if n < 8: raise Broken("only %d bindings found" % n)

def eff(i):
    c = i.callee or ""
    d = short(i.dem)
    if d.endswith("gil_scoped_release::gil_scoped_release") or c == "PyEval_SaveThread": return "rel"
    if d.endswith("gil_scoped_release::~gil_scoped_release") or c == "PyEval_RestoreThread": return "acq"
    if d.endswith("gil_scoped_acquire::gil_scoped_acquire"): return "acq"
    if d.endswith("gil_scoped_acquire::~gil_scoped_acquire"): return "rel"
    return None

def analyse(R, f, PY, HV):
    IN = {0: frozenset({"held"})}
    work = [0]
    while work:
        b = work.pop(); st = IN[b]
        for i in f.blocks[b].insts:
            if i.is_call():
                e = eff(i)
                if e:
                    st2 = frozenset({"released" if e == "rel" else "held"})
                    if i.op == "invoke":
                        push(IN, work, i.d["norm"], st2); push(IN, work, i.d["unw"], st); st = None; break
                    st = st2
        if st is not None:
            for z in f.blocks[b].succ: push(IN, work, z, st)
    nm = "binding@%d" % f.line
    for b, st in IN.items():
        for i in f.blocks[b].insts:
            if i.is_call():
                e = eff(i)
                if e: st = frozenset({"released" if e == "rel" else "held"}); continue
                c = i.callee
                if c is None or c.startswith("llvm."): continue
                if "released" in st:
                    if c in PY: R.bad("C03.no-python", i.where(), "%s is called while the GIL may be released and can reach the Python C API" % short(i.dem), key="%s in released region" % short(i.dem))
                    else: R.ok("C03.no-python", "%s %s" % (i.where(), short(i.dem)))
                if c in HV:
                    R.check("C03.heavy-released", st == {"released"}, i.where(), "%s runs class-group work while the GIL is held" % short(i.dem), key="%s under GIL" % short(i.dem))
            elif i.op in ("load", "store") and "released" in st:
                pass
            if i.op in ("ret", "resume"):
                R.check("C03.reacquired", st == {"held"}, i.where(), "%s may exit with the GIL released" % nm, key="exit released")

def push(IN, work, z, st):
    n = IN.get(z, frozenset()) | st
    if n != IN.get(z): IN[z] = n; work.append(z)
