"""C04: the published API surfaces (Python package and stub, C header, Rust crate) agree with the native entry points."""
import ast, os, re, subprocess
from .. import ir, pyapi, ptaint, rustmir
from ..effects import Effects
from ..ir import Broken, short

OPS = ("CreateDiscriminant", "CheckProofOfTimeNWesolowski", "CreateDiscriminantAndCheckProofOfTimeNWesolowski", "CheckProofOfTimeNWesolowskiWithB", "GetBFromProof", "DeserializeForm", "VerifyWesolowskiProof", "ProveSlow")
SOURCES = ("CreateDiscriminant", "DeserializeForm")
# published function -> [(operation, {operation argument: published parameters it is made of})]
PY = {
 "create_discriminant": [("CreateDiscriminant", {0: "challenge_hash", 1: "discriminant_size_bits"})],
 "verify_wesolowski": [("DeserializeForm", {0: "discriminant", 1: "x_s", 2: "x_s"}), ("DeserializeForm", {0: "discriminant", 1: "y_s", 2: "y_s"}), ("DeserializeForm", {0: "discriminant", 1: "proof_s", 2: "proof_s"}),
   ("VerifyWesolowskiProof", {0: "discriminant", 1: "discriminant x_s", 2: "discriminant y_s", 3: "discriminant proof_s", 4: "num_iterations"})],
 "verify_n_wesolowski": [("CheckProofOfTimeNWesolowski", {0: "discriminant", 1: "x_s", 2: "proof_blob", 3: "proof_blob", 4: "num_iterations", 5: "disc_size_bits", 6: "recursion"})],
 "create_discriminant_and_verify_n_wesolowski": [("CreateDiscriminantAndCheckProofOfTimeNWesolowski", {0: "challenge_hash", 1: "discriminant_size_bits", 2: "x_s", 3: "proof_blob", 4: "proof_blob", 5: "num_iterations", 6: "recursion"})],
 "prove": [("CreateDiscriminant", {0: "challenge_hash", 1: "discriminant_size_bits"}), ("DeserializeForm", {0: "challenge_hash discriminant_size_bits", 1: "x_s", 2: "x_s"}),
   ("ProveSlow", {0: "challenge_hash discriminant_size_bits", 1: "challenge_hash discriminant_size_bits x_s", 2: "num_iterations", 3: "shutdown_file_path"})],
 "verify_n_wesolowski_with_b": [("CheckProofOfTimeNWesolowskiWithB", {0: "discriminant", 1: "B", 2: "x_s", 3: "proof_blob", 4: "proof_blob", 5: "num_iterations", 6: "recursion"})],
 "bqfc_deserialize": [("DeserializeForm", {0: "discriminant", 1: "data", 2: "data", 3: "strict"})],
 "get_b_from_n_wesolowski": [("GetBFromProof", {0: "discriminant", 1: "x_s", 2: "proof_blob", 3: "proof_blob", 4: "num_iterations", 5: "recursion"})],
}
PARAMS = {
 "create_discriminant": "challenge_hash:b discriminant_size_bits:i", "verify_wesolowski": "discriminant:b x_s:b y_s:b proof_s:b num_iterations:i",
 "verify_n_wesolowski": "discriminant:b x_s:b proof_blob:b num_iterations:i disc_size_bits:i recursion:i",
 "create_discriminant_and_verify_n_wesolowski": "challenge_hash:b discriminant_size_bits:i x_s:b proof_blob:b num_iterations:i recursion:i",
 "prove": "challenge_hash:b x_s:b discriminant_size_bits:i num_iterations:i shutdown_file_path:b",
 "verify_n_wesolowski_with_b": "discriminant:b B:b x_s:b proof_blob:b num_iterations:i recursion:i",
 "bqfc_deserialize": "discriminant:b data:b strict:o", "get_b_from_n_wesolowski": "discriminant:b x_s:b proof_blob:b num_iterations:i recursion:i",
}
# C function -> (parameters, operations)
C = {
 "create_discriminant_wrapper": ("seed seed_size size_bits result", [("CreateDiscriminant", {0: "seed seed_size", 1: "size_bits"}), ("__gmpz_export", {0: "result"})]),
 "prove_wrapper": ("challenge_hash challenge_size x_s x_s_size discriminant_size_bits num_iterations", [
   ("CreateDiscriminant", {0: "challenge_hash challenge_size", 1: "discriminant_size_bits"}),
   ("DeserializeForm", {0: "challenge_hash challenge_size discriminant_size_bits", 1: "x_s", 2: "x_s_size"}),
   ("ProveSlow", {1: "challenge_hash challenge_size discriminant_size_bits x_s x_s_size", 2: "num_iterations"})]),
 "verify_n_wesolowski_wrapper": ("discriminant_bytes discriminant_size x_s proof_blob proof_blob_size num_iterations recursion", [
   ("CheckProofOfTimeNWesolowski", {0: "discriminant_bytes discriminant_size", 1: "x_s", 2: "proof_blob", 3: "proof_blob_size", 4: "num_iterations", 5: "discriminant_size", 6: "recursion"})]),
}
# Rust function -> (C function, leaves of each argument)
RS = {
 "create_discriminant": ("create_discriminant_wrapper", [{("ptr", 0)}, {("len", 0)}, [{("len", 1), ("const", 8)}, {("len", 1), ("const", 3)}], {("ptr", 1)}]),
 "verify_n_wesolowski": ("verify_n_wesolowski_wrapper", [{("ptr", 0)}, {("len", 0)}, {("ptr", 1)}, {("ptr", 2)}, {("len", 2)}, {("val", 3)}, {("val", 4)}]),
 "prove": ("prove_wrapper", [{("ptr", 0)}, {("len", 0)}, {("ptr", 1)}, {("len", 1)}, {("val", 2)}, {("val", 3)}]),
}

def run(R):
    R.rule("C04.exported", "every function registered by the native module is imported and listed by the package and described by the stub; nothing else is", floor=20)
    R.rule("C04.signature", "stub and native function agree on number, order and kind of parameters, keyword names and defaults", floor=8)
    R.rule("C04.forward", "each operation a binding calls receives, in every argument position, exactly the caller parameters published for it", floor=30)
    R.rule("C04.header", "the C definitions agree with the header's declarations (type-checked by the compiler) and keep its parameter order", floor=4)
    R.rule("C04.rust-types", "the Rust crate type-checks against extern declarations generated from the C header; every C function it uses is declared and allow-listed", floor=4)
    R.rule("C04.rust-forward", "each Rust function hands pointers, lengths and numbers of its parameters to the matching C parameters", floor=15)
    R.rule("C04.rust-length", "a slice pointer reaches C only with its own length, or after lengths below what C reads were rejected", floor=4)
    R.assume_("pybind11, rustc and clang implement their documented conversions; bindgen maps C types as the table in sa/rustmir.py does")
    python(R); cside(R); rust(R)

# ------------------------------------------------------------------ Python
def py_names(path):
    t = ast.parse(open(path).read())
    imp, al, defs, bound = {}, None, {}, set()
    for n in t.body:
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                bound.add(a.asname or a.name)
                if (n.module or "").endswith("_chiavdf"): imp[a.asname or a.name] = a.name
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for x in tg:
                if isinstance(x, ast.Name):
                    if x.id == "__all__":
                        try: al = list(ast.literal_eval(n.value))
                        except Exception: raise Broken("__all__ of %s is not a literal" % path)
                    else:
                        bound.add(x.id)
                        if isinstance(n.value, ast.Name) and n.value.id in imp: imp[x.id] = imp[n.value.id]
        if isinstance(n, ast.FunctionDef): defs[n.name] = n
    return imp, al, defs

KIND = {"bytes": "b", "str": "b", "int": "i", "bool": "o"}
def ann_kind(a):
    if a is None: return "?"
    s = {KIND.get(x.id) for x in ast.walk(a) if isinstance(x, ast.Name)}
    return s.pop() if len(s) == 1 and None not in s else "?"

def kind_of_param(p):
    return {"ptr": "b", "i1": "o"}.get(p["ty"], "i" if p["ty"].startswith("i") else "?")

def python(R):
    d = ir.REPO + "/chiavdf/"
    imp, al, _ = py_names(d + "__init__.py")
    _, pal, stub = py_names(d + "__init__.pyi")
    defs = pyapi.pybind_defs()
    for n in sorted(set(defs) | set(stub) | set(al or ()) | set(pal or ())):
        R.check("C04.exported", n in defs, "src/python_bindings/fastvdf.cpp:1", "%s is published but not registered by the native module" % n, inst="%s registered" % n)
        R.check("C04.exported", imp.get(n) == n, "chiavdf/__init__.py:1", "the package name %s is %s" % (n, "bound to native %s" % imp[n] if n in imp else "not imported from the native module"), inst="%s imported" % n)
        for nm, l in (("chiavdf/__init__.py", al), ("chiavdf/__init__.pyi", pal)):
            if l is not None: R.check("C04.exported", n in l, nm + ":1", "__all__ lacks %s" % n, inst="%s in __all__ of %s" % (n, nm), key="%s all %s" % (nm, n))
        R.check("C04.exported", n in stub, "chiavdf/__init__.pyi:1", "%s has no stub" % n, inst="%s stub" % n)
    ext = ir.view("fastvdf", allf=True, inline=False, passes=ir.SSA_ONLY)
    full = Effects(ext)
    kw = def_args(defs)
    for n, (mg, dem, reg) in sorted(defs.items()):
        M = ir.view_if("fastvdf", lambda f, m, dd: m == mg, lambda f, m, dd: short(dd) in OPS)
        f = M.funcs[mg]
        R.saw("native functions", n)
        ps = [(k, p) for k, p in enumerate(f.params) if not p.get("sret") and p["name"] != "this"]
        names = [p["name"] for _, p in ps]
        st = stub.get(n)
        if st is not None:
            a = st.args
            sargs = a.posonlyargs + a.args
            sn = [x.arg for x in sargs]; w = "chiavdf/__init__.pyi:%d" % st.lineno
            if len(sn) != len(names) or a.kwonlyargs or a.vararg:
                R.bad("C04.signature", w, "%s has %d parameters in the stub and %d in the native module" % (n, len(sn), len(names)), key="arity " + n)
            else:
                okk = True
                if sn != names and sorted(sn) == sorted(names):
                    okk = False; R.bad("C04.signature", w, "%s: stub order %s, native order %s" % (n, sn, names), key="order " + n)
                for x, (k, p) in zip(sargs, ps):
                    sk, nk = ann_kind(x.annotation), kind_of_param(p)
                    if "?" not in (sk, nk) and sk != nk:
                        okk = False; R.bad("C04.signature", w, "%s: parameter %s is a different kind of value in the stub and in the native module" % (n, x.arg), key="kind %s %s" % (n, x.arg))
                ka, nd, dv = kw.get(n, ([], 0, []))
                if ka and ka != sn: okk = False; R.bad("C04.signature", reg.where(), "%s: keyword names %s differ from the stub's %s" % (n, ka, sn), key="keywords " + n)
                if len(a.defaults) != nd: okk = False; R.bad("C04.signature", w, "%s: %d defaults in the stub, %d in the native module" % (n, len(a.defaults), nd), key="defaults " + n)
                else:
                    for x, v in zip(a.defaults, dv):
                        if v is not None and isinstance(x, ast.Constant) and int(x.value) != v: okk = False; R.bad("C04.signature", w, "%s: a default value differs between stub and native module" % n, key="default value " + n)
                if okk: R.ok("C04.signature", n)
        if n not in PARAMS: continue
        spec = [x.split(":") for x in PARAMS[n].split()]
        if len(spec) != len(ps):
            R.bad("C04.signature", reg.where(), "%s is published with %d parameters but takes %d" % (n, len(spec), len(ps)), key="published arity " + n); continue
        E = Effects(M)
        for k, v in full.pmod.items(): E.pmod.setdefault(k, v)
        roles = {k: s[0] for (k, p), s in zip(ps, spec)}
        forward(R, f, E, n, roles, PY[n])

def def_args(defs):
    """python name -> (keyword names, number of defaults, default values) from the py::arg objects of each registration"""
    if not defs: return {}
    f = next(iter(defs.values()))[2].fn
    order = {}
    n = 0
    blk = sorted(f.reach_entry())
    seq = [i for b in rpo(f) for i in f.blocks[b].insts if i.is_call()]
    reg = {i.i: nm for nm, (_, _, i) in defs.items()}
    res = {}; cur = []; nd = 0; dv = []
    for i in seq:
        if i.i in reg:
            res[reg[i.i]] = (cur, nd, dv); cur = []; nd = 0; dv = []
        elif re.search(r"pybind11::arg::arg\(char const\*", i.dem) or i.dem.startswith("pybind11::literals::operator"):
            g = next((a for a in i.args if a[0] == "g"), None)
            G = f.mod.globals.get(g[1], {}).get("init") if g else None
            if not G: raise Broken("computed keyword name at " + i.where())
            cur.append(G[1].rstrip("\0"))
        elif "pybind11::arg::operator=" in i.dem or "pybind11::arg_v::arg_v<" in i.dem:
            nd += 1; dv.append(const_arg(f, i))
    return res

def const_arg(f, i):
    for a in i.args[::-1]:
        b, o = f.base_off(a)
        x = f.inst(b)
        if a[0] == "c": return int(a[1])
        if x is not None and x.op == "alloca":
            st = [u for u in f.all() if u.op == "store" and f.base_off(u.ops[1])[0] == b and u.ops[0][0] == "c"]
            if len(st) == 1: return int(st[0].ops[0][1])
    return None

def rpo(f):
    seen, out = set(), []
    st = [(0, iter(f.blocks[0].succ))]; seen.add(0)
    while st:
        b, it = st[-1]
        for z in it:
            if z not in seen: seen.add(z); st.append((z, iter(f.blocks[z].succ))); break
        else: out.append(b); st.pop()
    return out[::-1]

SCALE = {("verify_n_wesolowski_wrapper", "CheckProofOfTimeNWesolowski", 5): 8}
def scalar(f, v, depth=0):
    """(parameter, factor, offset) of an integer argument, "other" for another computation, None if it is not a plain value"""
    if v[0] == "a": return v[1], 1, 0
    i = f.inst(v)
    if i is None or depth > 30: return None
    if i.op in ("zext", "sext", "trunc", "freeze"): return scalar(f, i.ops[0], depth + 1)
    if i.op in ("add", "sub", "mul", "shl"):
        for a, b in ((0, 1), (1, 0)):
            if i.ops[b][0] == "c" and (b == 1 or i.op in ("add", "mul")):
                r = scalar(f, i.ops[a], depth + 1); k = int(i.ops[b][1])
                if r is None or r == "other": return r
                p, m, c = r
                return {"add": (p, m, c + k), "sub": (p, m, c - k), "mul": (p, m * k, c * k), "shl": (p, m << (k & 63), c << (k & 63))}[i.op]
        return "other"
    if i.op in ("and", "or", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"): return "other"
    return None

def forward(R, f, E, name, roles, spec):
    P = ptaint.ParamDeps(f, E, skip=lambda i: short(i.dem) in OPS and short(i.dem) not in SOURCES or i.callee == "__gmpz_export")
    found = {}
    for i in f.calls():
        s = short(i.dem) if i.callee and i.callee.startswith("_Z") else i.callee
        if s in {o for o, _ in spec}:
            sret = {k for k, kd in (i.d.get("pattr") or []) if kd == "sret"}
            args = [a for k, a in enumerate(i.args) if k not in sret]
            found.setdefault(s, []).append((i, [{roles[x] for x in P.of(a) if x in roles} for a in args], args))
    for op, want in spec:
        if op not in found:
            raise Broken("%s no longer calls %s" % (name, op))
    for op in dict.fromkeys(o for o, _ in spec):
        wants = [w for o, w in spec if o == op]
        sites = list(found[op])
        # assign each call to the published use it agrees with in most positions
        used = []
        for i, got, args in sites:
            sc = sorted(((sum(got[k] == set(v.split()) for k, v in w.items() if k < len(got)), -n) for n, w in enumerate(wants)), reverse=True)
            w = wants[-sc[0][1]]; used.append(-sc[0][1])
            for k, v in w.items():
                if k >= len(got): raise Broken("%s takes fewer arguments at %s" % (op, i.where()))
                g = got[k]
                R.check("C04.forward", g == set(v.split()), i.where(), "%s: argument %d of %s is made of parameters {%s}, published: {%s}" % (name, k, op, ", ".join(sorted(g)), v.replace(" ", ", ")), inst="%s -> %s[%d] = %s" % (name, op, k, v), key="%s %s %d" % (name, op, k))
                if args[k][0] in "va" and len(g) == 1 and g == set(v.split()):
                    x = scalar(f, args[k])
                    if x is not None:
                        m = SCALE.get((name, op, k), 1)
                        R.check("C04.forward", x != "other" and x[1:] == (m, 0), i.where(), "%s: argument %d of %s is not parameter %s%s but a different number computed from it" % (name, k, op, v, " * %d" % m if m > 1 else ""), inst="%s -> %s[%d] value" % (name, op, k), key="%s %s %d value" % (name, op, k))
        for n, w in enumerate(wants):
            if n not in used: R.bad("C04.forward", "%s:%d" % (ir.rel(f.file), f.line), "%s: no call of %s uses {%s}" % (name, op, ", ".join(sorted(set(" ".join(w.values()).split())))), key="%s %s missing %d" % (name, op, n))

# ------------------------------------------------------------------ C
def cside(R):
    fs, structs = rustmir.header_functions()
    [R.saw("C functions", f[0]) for f in fs]
    src, fl = ir.tu_table()["c_wrapper"]
    base = [ir.LLVM + "/clang++", "-std=c++17", "-w", "-fsyntax-only"] + fl
    r = subprocess.run(base + ["-include", ir.REPO + "/src/c_bindings/c_wrapper.h", src], capture_output=True, text=True)
    if r.returncode:
        r2 = subprocess.run(base + [src], capture_output=True, text=True)
        if r2.returncode: raise Broken("c_wrapper.cpp does not compile")
        m = re.search(r"error: (.*)", r.stderr)
        R.bad("C04.header", "src/c_bindings/c_wrapper.h:1", "definition and header declaration disagree: %s" % (m.group(1) if m else ""), key="types")
    full = Effects(ir.view("c_wrapper", allf=True, inline=False, passes=ir.SSA_ONLY))
    L = ir.listing("c_wrapper")
    for n, ret, hp in fs:
        here = [m for f_, m, d in L if m == n]
        if not here:
            R.bad("C04.header", "src/c_bindings/c_wrapper.h:1", "%s is declared but not defined with C linkage" % n, key="undefined " + n); continue
        M = ir.view_if("c_wrapper", lambda f_, m, d: m == n, lambda f_, m, d: short(d) in OPS)
        f = M.funcs[n]
        names = {}
        for v, kind, var, ty, pt, argno, fn, exprn in f.facts:
            if argno and fn == n and argno not in names: names[argno] = var
        hn = [a for a, _ in hp]
        ps = [(k, p) for k, p in enumerate(f.params) if not p.get("sret")]
        dn = [names.get(k + 1) for k in range(len(hn))]
        if len(ps) == len(hn): dn = [d or p["name"] for d, (_, p) in zip(dn, ps)]
        R.check("C04.header", not (dn != hn and sorted(map(str, dn)) == sorted(hn)), "src/c_bindings/c_wrapper.h:1", "%s: parameter order in the header %s differs from the definition %s" % (n, hn, dn), inst=n, key="order " + n)
        if n in C:
            roles = C[n][0].split()
            if len(ps) != len(roles): raise Broken("%s takes %d parameters, published with %d" % (n, len(ps), len(roles)))
            if hn != roles and sorted(hn) == sorted(roles):
                R.bad("C04.header", "src/c_bindings/c_wrapper.h:1", "%s: header order %s differs from the published order" % (n, hn), key="published order " + n)
            E = Effects(M)
            for k, v in full.pmod.items(): E.pmod.setdefault(k, v)
            forward(R, f, E, n, {k: r for (k, _), r in zip(ps, roles)}, C[n][1])

# ------------------------------------------------------------------ Rust
def form_size():
    r = subprocess.run([ir.LLVM + "/clang", "-E", "-P", "-x", "c", "-include", ir.REPO + "/src/bqfc.h", "-"], input="VSA_VALUE BQFC_FORM_SIZE\n", capture_output=True, text=True)
    m = re.search(r"VSA_VALUE (.*)", r.stdout)
    try: return int(eval(m.group(1).replace("/", "//"), {"__builtins__": {}}))
    except Exception: raise Broken("BQFC_FORM_SIZE not found")

def rust(R):
    fs, structs = rustmir.header_functions()
    text, err = rustmir.mir(fs, structs)
    if text is None:
        m = re.search(r"error(\[E\d+\])?: (.*)\n\s*--> .*?:(\d+)", err)
        if m and m.group(1) in ("[E0061]", "[E0308]", "[E0425]", "[E0560]", "[E0609]", "[E0433]", "[E0432]"):
            R.bad("C04.rust-types", "rust_bindings/src/lib.rs:%s" % m.group(3), "does not type-check against the C header: " + m.group(2), key="types")
            return
        raise Broken("lib.rs does not compile: " + err[-500:])
    F = rustmir.functions(text); cs = rustmir.consts(text)
    build = open(ir.REPO + "/rust_bindings/build.rs").read()
    allow = set(re.findall(r'allowlist_function\(\s*"([^"]+)"', build))
    hdr = {n: ps for n, _, ps in fs}
    need = form_size()
    used = set()
    for fn, f in sorted(F.items()):
        if "test" in fn: continue
        for b, dst, callee, args in f.calls:
            m = re.match(r"bindings::(\w+)$", callee)
            if not m or m.group(1) not in hdr: continue
            c = m.group(1); used.add(c); R.saw("Rust call sites of C", "%s -> %s" % (fn, c))
            R.check("C04.rust-types", any(re.fullmatch(a, c) for a in allow), "rust_bindings/build.rs:1", "%s is used but not generated by bindgen" % c, inst="%s in %s" % (c, fn), key="allow " + c)
            E = rustmir.Eval(f, F, cs)
            lv = [E.leaves(a) for a in args]
            if fn in RS and RS[fn][0] == c:
                for k, (g, w) in enumerate(zip(lv, RS[fn][1])):
                    alts = w if isinstance(w, list) else [w]
                    R.check("C04.rust-forward", g in alts, "rust_bindings/src/lib.rs:1", "%s: C parameter %s of %s receives %s, expected %s" % (fn, hdr[c][k][0], c, show(f, g), show(f, alts[0])), inst="%s: %s <- %s" % (fn, hdr[c][k][0], show(f, g)), key="%s %s %d" % (fn, c, k))
            for k, g in enumerate(lv):
                for kd, p in g:
                    if kd != "ptr" : continue
                    with_len = any(("len", p) in h for h in lv)
                    typed = "[u8; %d]" % need in f.types.get(f.params[p], "") or any("[u8; %d]" % need in f.types.get(int(x), "") for x in chain(f, args[k]))
                    ok = with_len or typed or E.excluded_short(b, p, need)
                    R.check("C04.rust-length", ok, "rust_bindings/src/lib.rs:1", "%s passes the pointer of slice %s to %s, which reads %d bytes, without passing or checking its length" % (fn, f.names.get(f.params[p], p), c, need), inst="%s %s" % (fn, f.names.get(f.params[p], p)), key="%s length %d" % (fn, p))
    for n in RS:
        if n not in F: raise Broken("Rust function %s not found" % n)
        if RS[n][0] not in used: raise Broken("Rust function %s does not call %s" % (n, RS[n][0]))

def chain(f, op, seen=None):
    seen = set() if seen is None else seen
    for x in re.findall(r"_(\d+)", op):
        if x in seen: continue
        seen.add(x)
        for b, rhs in f.asg.get(int(x), ()): chain(f, rhs, seen)
    return seen

def show(f, g):
    return "{%s}" % ", ".join(sorted("%s(%s)" % (k, f.names.get(f.params[p], p) if k != "const" else p) for k, p in g))
