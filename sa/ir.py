"""Program model: compiles /repo translation units to bitcode, normalises them with irx and
offers the resolved program (functions, CFG, SSA values, struct fields) to the rule engines."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
BUILD = os.path.join(VERIF, "build")

class Broken(Exception):
    """The analysis cannot be carried out (anchor vanished, source does not compile...)."""

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vsa-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def build_tool():
    src = os.path.join(VERIF, "irx", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irx-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fl = lambda *a: subprocess.check_output([LLVM + "/llvm-config", *a], text=True).split()
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [LLVM + "/clang++", "-O1", *fl("--cxxflags"), "-fexceptions", src, "-o", tmp, *fl("--ldflags", "--libs", "--link-shared")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build irx: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

def pybind_includes():
    for d in ("/opt/vp/venv/bin/python", "python3"):
        try:
            r = subprocess.run([d, "-m", "pybind11", "--includes"], capture_output=True, text=True)
            if r.returncode == 0 and r.stdout.strip():
                return r.stdout.split()
        except OSError:
            pass
    raise Broken("no pybind11 headers")

DEFS = ["-DVDF_MODE=0", "-DFAST_MACHINE=1", '-DCHIAVDF_VERSION="dev"']
# translation units of the build: name -> (path, flags)
def tu_table():
    s = REPO + "/src"
    inc = ["-I" + s, "-I" + s + "/c_bindings"]
    return {
        "vdf_client": (s + "/vdf_client.cpp", DEFS + inc),
        "castpairs": (VERIF + "/tu/castpairs.cpp", DEFS + inc),
        "p09": (VERIF + "/tu/p09.cpp", ["-DNDEBUG"] + DEFS + inc),
        "vdf_client_nd": (s + "/vdf_client.cpp", ["-DNDEBUG"] + DEFS + inc),
        "vdf_bench": (s + "/vdf_bench.cpp", DEFS + inc),
        "compile_asm": (s + "/compile_asm.cpp", DEFS + inc),
        "c_wrapper": (s + "/c_bindings/c_wrapper.cpp", DEFS + inc),
        "fastvdf": (s + "/python_bindings/fastvdf.cpp", ["-DNDEBUG", "PYBIND"] + inc),
        "bqfc": (s + "/bqfc.c", DEFS + inc + ["-x", "c"]),
        "lzcnt": (s + "/refcode/lzcnt.c", ["-x", "c"] + inc),
        "hw_proof": (s + "/hw/hw_proof.cpp", DEFS + inc + ["-I" + s + "/hw"]),
        "hw_client": (s + "/hw/hw_vdf_client.cpp", DEFS + inc + ["-I" + s + "/hw", "-I" + VERIF + "/tu/stubs"]),
        "hw_interface": (s + "/hw/hw_interface.cpp", DEFS + inc + ["-I" + s + "/hw", "-I" + VERIF + "/tu/stubs"]),
        "vdf_driver": (s + "/hw/vdf_driver.cpp", DEFS + inc + ["-I" + s + "/hw", "-I" + VERIF + "/tu/stubs"]),
        "vdf_base_hw": (s + "/vdf_base_hw.cpp", DEFS + inc),
        "vdf_base": (s + "/vdf_base.cpp", DEFS + inc),
    }

def compile_tu(name):
    path, flags = tu_table()[name]
    out = os.path.join(tmpdir(), name + ".bc")
    if os.path.exists(out):
        return out
    if not os.path.exists(path):
        raise Broken("source file %s does not exist" % path)
    fl = []
    for f in flags:
        fl += pybind_includes() if f == "PYBIND" else [f]
    std = [] if "-x" in fl and fl[fl.index("-x") + 1] == "c" else ["-std=c++17"]
    cmd = [LLVM + "/clang++", *std, "-O0", "-g", "-fstandalone-debug", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", *fl, "-emit-llvm", "-c", path, "-o", out]
    if std == []:
        cmd[0] = LLVM + "/clang"
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("%s does not compile: %s" % (path, r.stderr[-3000:]))
    return out

def compile_all(names):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_tu, names))

_list = {}
def listing(tu):
    """[(file, mangled, demangled)] of every repository function defined in the unit"""
    if tu not in _list:
        r = subprocess.run([build_tool(), "--repo", REPO + "/", "--repo", VERIF + "/tu/", "--list", compile_tu(tu)], capture_output=True, text=True)
        if r.returncode: raise Broken("irx --list failed: " + r.stderr[-1000:])
        _list[tu] = [tuple(l.split("\t")) for l in r.stdout.splitlines()]
    return _list[tu]

def view_if(tu, root, keep, also=(), passes=None):
    """view with predicates: root(file, mangled, dem) -> analysed function; keep(...) -> stays a call; every other
    repository function is inlined (so helpers extracted from, or merged into, an anchor make no difference)"""
    L = listing(tu)
    rn = [m for f, m, d in L if root(rel(f), m, d)]
    if not rn: raise Broken("no root function in %s" % tu)
    kn = [m for f, m, d in L if keep(rel(f), m, d)]
    n = len(os.listdir(tmpdir()))
    kp = os.path.join(tmpdir(), "keep%d" % n); open(kp, "w").write("\n".join(kn))
    rp = os.path.join(tmpdir(), "root%d" % n); open(rp, "w").write("\n".join(rn))
    return view(tu, also=also, passes=passes, extra=["--keep-names", kp, "--root-names", rp])

DEFAULT_PASSES = None
def view(tu, roots=(), keep=(), also=(), passes=None, allf=False, inline=True, cg=False, extra=()):
    tool = build_tool()
    bc = compile_tu(tu)
    cmd = [tool, "--repo", REPO + "/", "--repo", VERIF + "/tu/"]
    for r in roots: cmd += ["--root", r]
    for k in keep: cmd += ["--keep", k]
    for k in also: cmd += ["--also", k]
    if passes is not None: cmd += ["--passes", passes]
    if allf: cmd += ["--all"]
    cmd += list(extra)
    if cg: cmd += ["--cg"]
    if not inline: cmd += ["--no-inline"]
    r = subprocess.run(cmd + [bc], capture_output=True)
    if r.returncode:
        raise Broken("irx failed on %s: %s" % (tu, r.stderr.decode()[-2000:]))
    return Module(tu, json.loads(r.stdout))

SSA_ONLY = "function(sroa<modify-cfg>)"

class Inst:
    __slots__ = ("i", "op", "ty", "ops", "args", "callee", "dem", "loc", "d", "bb", "fn", "idx")
    def __init__(s, d, bb, fn, idx):
        s.i = d["i"]; s.op = d["op"]; s.ty = d["ty"]; s.d = d; s.bb = bb; s.fn = fn; s.idx = idx
        s.ops = [tuplify(o) for o in d.get("ops", [])]
        s.args = [tuplify(o) for o in d.get("args", [])]
        s.callee = d.get("callee"); s.dem = d.get("dem", s.callee) or ""; s.loc = d.get("loc")
    def is_call(s): return s.op in ("call", "invoke", "callbr")
    def where(s):
        if not s.loc: return "%s:?" % os.path.relpath(s.fn.file or "?", REPO)
        return "%s:%d" % (rel(s.loc[0]), s.loc[1])
    def line_in_repo(s):
        return bool(s.loc) and s.loc[0].startswith(REPO + "/")
    def __repr__(s):
        if s.is_call(): return "<%%%d %s %s(%s) @%s>" % (s.i, s.op, short(s.dem), s.args, s.where())
        return "<%%%d %s %s %s @%s>" % (s.i, s.op, s.d.get("pred", ""), s.ops, s.where())

def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p

def tuplify(v):
    return tuple(tuplify(x) if isinstance(x, list) else x for x in v) if isinstance(v, list) else v

def short(dem):
    """function name without parameters and template arguments"""
    s = dem
    out = []; depth = 0; end = None
    i = 0
    s = s.replace("operator()", "operator@call").replace("operator<<", "operator@shl").replace("operator->", "operator@arrow").replace("operator<", "operator@lt").replace("operator>", "operator@gt").replace("(anonymous namespace)", "@anon")
    for n, c in enumerate(s):
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif c == "(" and depth == 0: end = n; break
        elif depth == 0: out.append(c)
    r = "".join(out).strip()
    if end is not None and ")" in s[end:]:
        # a function of a class local to another function (lambda bodies): named after both
        k = 0
        for n in range(end, len(s)):
            k += (s[n] == "(") - (s[n] == ")")
            if k == 0: break
        m = re.match(r"(?: const| volatile| &&?| noexcept)*::(?=[$'{A-Za-z_~])", s[n + 1:])
        if m and not s[:end].endswith("operator"): r += "::local"
    # drop a leading return type ("void foo")
    if " " in r and "operator" not in r: r = r.split(" ")[-1]
    elif " " in r:
        j = r.find("operator"); k = r.rfind(" ", 0, j)
        if k >= 0: r = r[k + 1:]
    return r.replace("operator@call", "operator()").replace("operator@shl", "operator<<").replace("operator@arrow", "operator->").replace("operator@lt", "operator<").replace("operator@gt", "operator>").replace("@anon", "(anonymous namespace)")

class Block:
    __slots__ = ("b", "insts", "succ", "pred", "unw")
    def __init__(s, b): s.b = b; s.insts = []; s.succ = []; s.pred = []; s.unw = None
    @property
    def term(s): return s.insts[-1]

class Func:
    def __init__(s, d, mod):
        s.mod = mod; s.name = d["name"]; s.dem = d["dem"]; s.short = short(d["dem"]); s.file = d.get("file", ""); s.line = d.get("line", 0)
        s.params = d["params"]; s.nounwind = d["nounwind"]; s.ret = d["ret"]; s.ditypes = d.get("ditypes", [])
        s.artificial = d.get("artificial"); s.spname = d.get("spname")
        s.blocks = []; s.insts = {}
        for bd in d["blocks"]:
            b = Block(bd["b"]); s.blocks.append(b)
            for k, x in enumerate(bd["insts"]):
                I = Inst(x, b.b, s, k); b.insts.append(I); s.insts[I.i] = I
        for b in s.blocks:
            t = b.term; x = t.d
            if t.op == "br": b.succ = list(x["succ"])
            elif t.op == "switch": b.succ = [x["def"]] + [c[1] for c in x["cases"]]
            elif t.op == "invoke": b.succ = [x["norm"], x["unw"]]; b.unw = x["unw"]
            for z in b.succ: s.blocks[z].pred.append(b.b)
        s.facts = [tuplify(f) for f in d["facts"]]
        s._dom = s._pdom = s._users = None
        s.vtypes = {}; s.vnames = {}
        for v, kind, var, ty, pt, argno, fn, exprn in s.facts:
            if kind == "d":
                s.vtypes.setdefault(v, set()).add(ty); s.vnames.setdefault(v, []).append((var, fn))
            elif exprn == 0:
                if pt: s.vtypes.setdefault(v, set()).add(pt)
                s.vnames.setdefault(v, []).append((var, fn))
    # -- iteration
    def all(s):
        for b in s.blocks:
            yield from b.insts
    def calls(s):
        for i in s.all():
            if i.is_call(): yield i
    def inst(s, v):
        return s.insts.get(v[1]) if v and v[0] == "v" else None
    @property
    def users(s):
        if s._users is None:
            s._users = {}
            def add(v, i):
                if v and v[0] in ("v", "a"): s._users.setdefault(v, []).append(i)
                elif v and v[0] in ("A",):
                    for x in v[1:]: add(x, i)
            for i in s.all():
                for v in i.ops + i.args: add(v, i)
                if "inc" in i.d:
                    for v, _ in i.d["inc"]: add(tuplify(v), i)
                if "cv" in i.d: add(tuplify(i.d["cv"]), i)
        return s._users
    def phi_inc(s, i):
        return [(tuplify(v), b) for v, b in i.d["inc"]]
    # -- dominators
    def dom(s):
        if s._dom is None: s._dom = dominators(len(s.blocks), 0, lambda b: s.blocks[b].succ, lambda b: s.blocks[b].pred)
        return s._dom
    def dominates(s, a, b):
        """block a dominates block b"""
        d = s.dom()
        while True:
            if a == b: return True
            if b == 0 or d.get(b) is None: return False
            b = d[b]
    def idom_inst(s, x, y):
        """instruction x dominates instruction y"""
        if x.bb == y.bb: return x.idx < y.idx
        return s.dominates(x.bb, y.bb)
    def reachable(s, start, avoid=frozenset()):
        """blocks reachable from the successors of `start` (not passing through avoid)"""
        seen = set(); st = list(s.blocks[start].succ)
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b); st.extend(s.blocks[b].succ)
        return seen
    def reach_entry(s):
        seen = {0}; st = [0]
        while st:
            for z in s.blocks[st.pop()].succ:
                if z not in seen: seen.add(z); st.append(z)
        return seen
    def loops(s):
        """natural loops: header -> set of blocks"""
        res = {}
        R = s.reach_entry()
        for b in s.blocks:
            if b.b not in R: continue
            for z in b.succ:
                if s.dominates(z, b.b):
                    body = {z}; st = [b.b]
                    while st:
                        q = st.pop()
                        if q in body: continue
                        body.add(q); st.extend(p for p in s.blocks[q].pred if p in R)
                    res.setdefault(z, set()).update(body)
        return res
    # -- pointers
    def base_off(s, v, depth=0):
        """(root value, constant byte offset or None) of a pointer value"""
        off = 0
        while depth < 60:
            depth += 1
            i = s.inst(v)
            if i is None:
                if v and v[0] == "g": return (("g", v[1]), (off + v[2]) if off is not None else None)
                return v, off
            if i.op == "getelementptr":
                if "off" in i.d:
                    if off is not None: off += i.d["off"]
                else: off = None
                v = i.ops[0]
            elif i.op in ("bitcast", "addrspacecast"):
                v = i.ops[0]
            else: return v, off
        return v, off
    def field_chain(s, v):
        """list of (class, field path) names for an address, outermost GEP last; innermost first"""
        res = []
        M = s.mod
        for _ in range(40):
            i = s.inst(v)
            if i is not None and i.op == "getelementptr":
                src = clean_ty(i.d["src"])
                off = i.d.get("off")
                if src in M.structs:
                    o = off if off is not None else i.d.get("coff", 0)
                    f = M.field_at(src, o)
                    if f: res.append((src, f[0], f[1]))
                v = i.ops[0]; continue
            break
        for t in s.vtypes.get(v, ()):
            if t in M.structs and not any(r[0] == t for r in res):
                # zero-offset field of the pointed-to class
                f = M.field_at(t, 0) if not res else None
                if f: res.append((t, f[0], f[1]))
        return v, res
    def fields_of(s, v):
        """set of 'Class::field' names this address may denote (including base-class views)"""
        out = set()
        base, ch = s.field_chain(v)
        for c, f, t in ch[:1] if ch else []:
            out.add(c + "::" + f)
        if len(ch) > 1 or not ch:
            for c, f, t in ch: out.add(c + "::" + f)
        if base and base[0] == "g": out.add(s.mod.gname(base[1]))
        return out

def clean_ty(t):
    t = t.strip()
    t = re.sub(r'^%', '', t).strip('"')
    t = re.sub(r'^(class|struct|union)\.', '', t)
    t = re.sub(r'\.base$', '', t)
    t = re.sub(r'\.\d+$', '', t)
    return t

def dominators(n, root, succ, pred):
    order = []; seen = {root}; st = [(root, iter(succ(root)))]
    while st:
        b, it = st[-1]
        for z in it:
            if z not in seen:
                seen.add(z); st.append((z, iter(succ(z)))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred(b):
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new: idom[b] = new; ch = True
    idom[root] = None
    return idom

class Module:
    def __init__(s, tu, d):
        s.tu = tu; s.structs = d["structs"]; s.globals = d["globals"]
        s.edges = d.get("edges", {})
        s.funcs = {}
        for f in d["funcs"]:
            F = Func(f, s); s.funcs[F.name] = F
        s.decls = {x["name"]: x for x in d["decls"]}
        for n, st in list(s.structs.items()):
            pass
    def gname(s, g):
        x = s.globals.get(g)
        return x["dem"] if x else g
    def by_short(s, nm):
        return [f for f in s.funcs.values() if f.short == nm]
    def one(s, nm):
        r = s.by_short(nm)
        if len(r) != 1: raise Broken("anchor function %s: %d instances in %s" % (nm, len(r), s.tu))
        return r[0]
    def find(s, rx):
        r = re.compile(rx)
        return [f for f in s.funcs.values() if r.search(f.dem)]
    def field_at(s, cls, off, depth=0):
        """(field path, type) at byte offset"""
        st = s.structs.get(cls)
        if not st: return None
        best = None
        for m in st["members"]:
            if m["off"] <= off < m["off"] + max(1, m["size"]):
                best = m
        if not best: return None
        t = best["type"]
        if best["name"] == "<base>":
            r = s.field_at(clean_ty(t), off - best["off"], depth + 1)
            return r
        return best["name"], t

    def reach(s, starts):
        """names reachable in the reference graph (functions and globals)"""
        seen = set(starts); st = list(starts)
        while st:
            for z in s.edges.get(st.pop(), ()):
                if z not in seen: seen.add(z); st.append(z)
        return seen
