"""The Rust bindings as MIR: lib.rs is type-checked by rustc against extern declarations generated from the C header."""
import json, os, re, subprocess
from . import ir
from .ir import Broken

CT = {"bool": "bool", "_Bool": "bool", "size_t": "usize", "uint64_t": "u64", "uint32_t": "u32", "uint8_t": "u8", "int": "i32", "unsigned int": "u32", "unsigned long": "usize", "void": "()", "int64_t": "i64", "int32_t": "i32", "char": "i8"}
def rust_ty(t):
    t = t.strip()
    if t.endswith("*"):
        b = t[:-1].strip()
        if b.startswith("const "): return "*const " + rust_ty(b[6:])
        return "*mut " + rust_ty(b)
    return CT.get(t, t)

def header_functions():
    """[(name, return type, [(param name, type)])] and structs of c_wrapper.h"""
    h = ir.REPO + "/src/c_bindings/c_wrapper.h"
    if not os.path.exists(h): raise Broken("C header not found")
    r = subprocess.run([ir.LLVM + "/clang", "-x", "c", "-w", "-include", "stddef.h", "-fsyntax-only", "-Xclang", "-ast-dump=json", h], capture_output=True, text=True)
    if r.returncode: raise Broken("c_wrapper.h does not compile as C: " + r.stderr[-500:])
    ast = json.loads(r.stdout)
    fs, structs, cur = [], {}, None
    def file_of(n):
        nonlocal cur
        l = n.get("loc", {})
        l = l.get("expansionLoc", l) if "expansionLoc" in l else l
        if "file" in l: cur = l["file"]
        return cur
    for n in ast["inner"]:
        here = file_of(n)
        # the json dump only repeats the file when it changes, also inside nested nodes
        if here and here.endswith("c_wrapper.h"):
            if n["kind"] == "FunctionDecl":
                ret = n["type"]["qualType"].split("(")[0].strip()
                fs.append((n["name"], ret, [(p.get("name", "_"), p["type"]["qualType"]) for p in n.get("inner", []) if p["kind"] == "ParmVarDecl"]))
            if n["kind"] == "RecordDecl":
                structs["@last"] = [(x["name"], x["type"]["qualType"]) for x in n.get("inner", []) if x["kind"] == "FieldDecl"]
                if n.get("name"): structs[n["name"]] = structs["@last"]
            if n["kind"] == "TypedefDecl" and "@last" in structs and n["type"]["qualType"].startswith(("struct", n["name"])):
                structs[n["name"]] = structs.pop("@last")
    structs.pop("@last", None)
    if not fs: raise Broken("no functions in c_wrapper.h")
    return fs, structs

def bindings(fs, structs):
    o = []
    for n, m in structs.items():
        o.append("#[repr(C)] #[derive(Clone, Copy)] pub struct %s { %s }" % (n, ", ".join("pub %s: %s" % (a, rust_ty(t)) for a, t in m)))
    o.append('extern "C" {')
    for n, r, ps in fs:
        o.append("  pub fn %s(%s)%s;" % (n, ", ".join("%s: %s" % ("r#type" if a == "type" else a, rust_ty(t)) for a, t in ps), "" if r == "void" else " -> " + rust_ty(r)))
    o.append("}\npub fn free(_: *mut u8) {}\n")
    return "\n".join(o)

def mir(fs, structs):
    """(MIR text, None) or (None, compiler errors)"""
    d = os.path.join(ir.tmpdir(), "rust"); os.makedirs(d, exist_ok=True)
    open(d + "/bindings.rs", "w").write(bindings(fs, structs))
    open(d + "/lc.rs", "w").write("")
    env = dict(os.environ, OUT_DIR=d)
    try:
        r = subprocess.run(["rustc", "--crate-name", "link_cplusplus", "--crate-type", "rlib", d + "/lc.rs", "-o", d + "/liblink_cplusplus.rlib"], capture_output=True, text=True, env=env)
        if r.returncode: raise Broken("rustc does not work: " + r.stderr[-400:])
        src = ir.REPO + "/rust_bindings/src/lib.rs"
        if not os.path.exists(src): raise Broken("rust_bindings/src/lib.rs not found")
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-name", "chiavdf", "--crate-type", "lib", "--emit=mir", src, "--extern", "link_cplusplus=" + d + "/liblink_cplusplus.rlib", "-o", d + "/out.mir"], capture_output=True, text=True, env=env)
    except OSError as e: raise Broken("rustc: %s" % e)
    if r.returncode: return None, r.stderr
    return open(d + "/out.mir").read(), None

class Fn:
    def __init__(s, name, params, body):
        s.name = name; s.params = params; s.asg = {}; s.bbs = {}; s.names = {}; s.types = {}; s.calls = []
        for m in re.finditer(r"debug (\w+) => _(\d+);", body): s.names.setdefault(int(m.group(2)), m.group(1))
        for m in re.finditer(r"let (?:mut )?_(\d+): ([^;]+);", body): s.types[int(m.group(1))] = m.group(2)
        for m in re.finditer(r"^    bb(\d+)(?: \(cleanup\))?: \{\n(.*?)^    \}", body, re.S | re.M):
            s.bbs[int(m.group(1))] = [l.strip() for l in m.group(2).splitlines() if l.strip()]
        s.succ = {b: [int(x) for x in re.findall(r"bb(\d+)", ls[-1])] if ls else [] for b, ls in s.bbs.items()}
        for b, ls in s.bbs.items():
            for l in ls:
                m = re.match(r"_(\d+) = (.*?);?$", l)
                if m: s.asg.setdefault(int(m.group(1)), []).append((b, m.group(2)))
                m = re.match(r"(_\d+) = (?:<.*?>::)?([\w:<>&\[\]', \*]+?)\((.*)\) -> ", l)
                if m: s.calls.append((b, m.group(1), m.group(2), split_args(m.group(3))))
    def dom(s):
        idom = ir.dominators(len(s.bbs), 0, lambda b: s.succ.get(b, []), lambda b: [p for p in s.succ if b in s.succ[p]])
        return idom
    def dominated_by(s, idom, b):
        r = []
        while b is not None:
            r.append(b); b = idom.get(b)
        return r

def split_args(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c in "(<[{": d += 1
        if c in ")>]}": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def functions(text):
    fs = {}
    for m in re.finditer(r"^fn ([\w:<>{}#]+)\(([^\n]*)\) -> [^\n]*\{\n(.*?)^\}", text, re.S | re.M):
        ps = [int(x) for x in re.findall(r"(?:^|, )_(\d+): ", m.group(2))]
        f = Fn(m.group(1), ps, m.group(3))
        for x in re.finditer(r"_(\d+): ([^,]+(?:\[[^\]]*\])?)", m.group(2)): f.types.setdefault(int(x.group(1)), x.group(2))
        fs[m.group(1).split("::")[-1]] = f
    return fs

def consts(text):
    r = {}
    for m in re.finditer(r"^const ([\w:]+): \w+ = const (\d+)_\w+;", text, re.M): r[m.group(1).split("::")[-1]] = int(m.group(2))
    for m in re.finditer(r"^const ([\w:]+): \w+ = \{\n(.*?)^\}", text, re.S | re.M):
        x = re.search(r"_0 = const (\d+)_", m.group(2))
        if x: r[m.group(1).split("::")[-1]] = int(x.group(1))
    return r

class Eval:
    """leaves of an operand: ("ptr",p) ("len",p) ("val",p) ("const",n) with p the 0-based parameter"""
    def __init__(s, f, fs, cs): s.f = f; s.fs = fs; s.cs = cs
    def leaves(s, op, env=None, seen=frozenset()):
        f = s.f; op = op.strip()
        m = re.match(r"const (\d+)_\w+", op)
        if m: return {("const", int(m.group(1)))}
        m = re.match(r"const ([\w:]+)$", op)
        if m: return {("const", s.cs[m.group(1).split("::")[-1]])} if m.group(1).split("::")[-1] in s.cs else set()
        r = set()
        for x in re.findall(r"_(\d+)", op): r |= s.local(int(x), seen)
        for x in re.findall(r"const (\d+)_\w+", op): r.add(("const", int(x)))
        for x in re.findall(r"const ([A-Za-z_][\w:]*)", op):
            n = x.split("::")[-1]
            if n in s.cs: r.add(("const", s.cs[n]))
        return r
    def local(s, n, seen):
        f = s.f
        if n in f.params and n not in f.asg: return {("val", f.params.index(n))}
        if n in seen: return set()
        r = set()
        for b, rhs in f.asg.get(n, ()):
            l = s.leaves(rhs.split(" -> ")[0], None, seen | {n})
            if re.search(r"PtrMetadata\(|\bLen\(|::len\(", rhs): l = {("len", p) if k in ("val", "ptr") else (k, p) for k, p in l}
            elif re.search(r"::as_(mut_)?ptr(_range)?\(|&raw |PtrToPtr", rhs): l = {("ptr", p) if k == "val" else (k, p) for k, p in l}
            r |= l
        if n in f.params: r.add(("val", f.params.index(n)))
        return r
    def cond(s, op, v, p, depth=0):
        """truth value of the operand when the length of parameter p is v (None: unknown)"""
        f = s.f
        m = re.match(r"(?:move|copy) _(\d+)$", op.strip())
        if not m or depth > 12: return None
        a = f.asg.get(int(m.group(1)), [])
        if len(a) != 1: return None
        rhs = a[0][1].split(" -> ")[0]
        m = re.match(r"(Ne|Eq|Lt|Le|Gt|Ge)\((.*)\)$", rhs)
        if m:
            x, y = [s.num(q, v, p) for q in split_args(m.group(2))]
            if x is None or y is None: return None
            return dict(Ne=x != y, Eq=x == y, Lt=x < y, Le=x <= y, Gt=x > y, Ge=x >= y)[m.group(1)]
        m = re.match(r"Not\((.*)\)$", rhs)
        if m:
            c = s.cond(m.group(1), v, p, depth + 1); return None if c is None else not c
        m = re.match(r"(\w+)\((.*)\)$", rhs)
        if m and m.group(1) in s.fs:
            g = s.fs[m.group(1)]; args = split_args(m.group(2)); E = Eval(g, s.fs, s.cs)
            for k, q in enumerate(args):
                if s.leaves(q) & {("val", p)} and k < len(g.params):
                    return E.cond("move _0", v, k, depth + 1)
        m = re.match(r"(?:move|copy) _\d+$", rhs)
        if m: return s.cond(rhs, v, p, depth + 1)
        return None
    def num(s, op, v, p):
        l = s.leaves(op)
        if len(l) != 1: return None
        k, n = next(iter(l))
        return n if k == "const" else v if (k, n) == ("len", p) else None
    def excluded_short(s, b, p, need):
        """every way into block b has rejected lengths of parameter p below `need`"""
        f = s.f; idom = f.dom()
        for d in f.dominated_by(idom, b):
            if d == b: continue
            t = f.bbs[d][-1]
            m = re.match(r"switchInt\((.*?)\) -> \[0: bb(\d+), otherwise: bb(\d+)\]", t)
            if not m: continue
            F, T = int(m.group(2)), int(m.group(3))
            for val, tgt, oth in ((False, F, T), (True, T, F)):
                if tgt in f.dominated_by(idom, b) and oth not in f.dominated_by(idom, b) and len([q for q in f.succ if tgt in f.succ[q]]) == 1:
                    cs = [s.cond(m.group(1), v, p) for v in range(need)]
                    if all(c is not None and c != val for c in cs): return True
        return False
