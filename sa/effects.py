"""Interprocedural side-effect analysis: which globals and which parameters a function may write through."""
import re
from . import gmp
from .ir import short

CPURE = {"memcmp", "strlen", "strcmp", "strncmp", "bcmp", "strchr", "strrchr", "strstr", "memchr", "getenv", "atoi", "atol", "strtol", "strtoul", "strtoull", "puts", "fputs", "printf", "fprintf", "fwrite", "fopen", "stat", "lstat", "fstat", "__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__cxa_atexit", "__cxa_thread_atexit", "_Unwind_Resume", "__clang_call_terminate", "_ZSt9terminatev", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "__cxa_free_exception", "__gxx_personality_v0", "__assert_fail", "abort", "exit", "__errno_location", "pthread_self"}
CWRITE0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "llvm.memcpy", "llvm.memmove", "llvm.memset", "sprintf", "snprintf", "fgets", "fread"}

def split_params(dem):
    """parameter type strings and const-ness of `this` from a demangled name"""
    s = dem
    s2 = s.replace("operator()", "operator@@")
    depth = 0; start = -1; end = -1
    # last top level '(' ... ')'
    i = len(s2) - 1; d = 0
    while i >= 0:
        c = s2[i]
        if c == ")":
            if d == 0 and end < 0: end = i
            d += 1
        elif c == "(":
            d -= 1
            if d == 0: start = i; break
        i -= 1
    if start < 0: return [], False
    tail = s2[end + 1:]
    const_this = bool(re.match(r"\s*const\b", tail))
    body = s2[start + 1:end]
    out = []; cur = ""; d = 0
    for c in body:
        if c in "(<[{": d += 1
        elif c in ")>]}": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out, const_this

def const_pointee(t):
    t = t.strip()
    if not t.endswith(("*", "&")): return True   # by value
    while t.endswith("&"): t = t[:-1].strip()
    if t.endswith("*") : t = t[:-1].strip()
    return t.endswith("const") or t.startswith("const ")

def is_static_or_free(dem):
    return False

class Effects:
    def __init__(s, mod):
        s.m = mod
        s.pmod = {n: set() for n in mod.funcs}       # params written through (any depth)
        s.pmod_site = {}
        s.g = {n: [] for n in mod.funcs}              # (global, inst) written
        s._roots = {}
        ch = True; n = 0
        while ch and n < 30:
            ch = False; n += 1
            for f in mod.funcs.values():
                ch |= s.step(f)
    # roots of a pointer value
    def roots(s, f, v, seen=None):
        key = (f.name, v)
        if seen is None:
            if key in s._roots: return s._roots[key]
            r = s.roots(f, v, set()); s._roots[key] = r
            return r
        if v in seen: return set()
        seen.add(v)
        if not v: return set()
        k = v[0]
        if k == "g": return {("g", v[1])}
        if k == "a": return {("a", v[1])}
        if k == "e":
            r = set()
            for x in v[2:]: r |= s.roots(f, x, seen)
            return r
        i = f.inst(v)
        if i is None: return set()
        if i.op == "alloca": return {("l", v)}
        if i.op == "getelementptr": return s.roots(f, i.ops[0], seen)
        if i.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint", "freeze"): return s.roots(f, i.ops[0], seen)
        if i.op == "phi":
            r = set()
            for x, _ in f.phi_inc(i): r |= s.roots(f, x, seen)
            return r
        if i.op == "select": return s.roots(f, i.ops[1], seen) | s.roots(f, i.ops[2], seen)
        if i.op == "load":
            r = set()
            for b in s.roots(f, i.ops[0], seen):
                if b[0] == "l":
                    # pointers stored into that local
                    for u in f.all():
                        if u.op == "store" and ("l", None) and f.base_off(u.ops[1])[0] == b[1]:
                            r |= s.roots(f, u.ops[0], seen)
                else: r.add(b)
            return r
        if i.is_call():
            if i.callee and i.callee.startswith("llvm.threadlocal.address"): return s.roots(f, i.args[0], seen)
            # a function returning a pointer into one of its pointer arguments (operator[], begin(), get()...)
            r = set()
            if i.ty == "ptr" and not (i.callee in ("_Znwm", "_Znam", "malloc", "calloc", "realloc", "__cxa_allocate_exception", "__cxa_begin_catch")):
                for a in i.args: r |= {x for x in s.roots(f, a, seen) if x[0] != "l"}
            return r
        return set()
    def written_args(s, f, i):
        """argument positions a call may write through"""
        if i.op not in ("call", "invoke"): return []
        c = i.callee
        if c is None: return []   # indirect
        r = gmp.roles(i)
        if r is not None:
            return [k for k, (a, ro) in enumerate(zip(i.args, gmp.T[c] if not gmp.T[c].endswith("*") else gmp.T[c][0] * len(i.args))) if ro in "obpIWC"]
        if c in s.pmod: return sorted(s.pmod[c])
        if c.startswith("llvm."):
            return [0] if any(c.startswith(x) for x in ("llvm.memcpy", "llvm.memmove", "llvm.memset")) else []
        if c in CPURE or c.startswith("__cxa_guard"): return []
        if c in CWRITE0: return [0]
        if c == "__cxa_thread_atexit": return []
        if not c.startswith("_Z"):
            return list(range(len(i.args)))
        ps, cthis = split_params(i.dem)
        off = len(i.args) - len(ps)
        # sret then this: constructors, members
        out = []
        sret = {k for k, kind in i.d.get("pattr", []) if kind == "sret"}
        byval = {k for k, kind in i.d.get("pattr", []) if kind == "byval"}
        lead = [k for k in range(off)]
        for k in range(len(i.args)):
            if k in sret: out.append(k); continue
            if k in byval: continue
            if k < off:
                if not cthis: out.append(k)
            else:
                if not const_pointee(ps[k - off]): out.append(k)
        return out
    def step(s, f):
        gs = []; ps = set(s.pmod[f.name])
        for i in f.all():
            tg = []
            if i.op == "store": tg = [i.ops[1]]
            elif i.op in ("atomicrmw", "cmpxchg"): tg = [i.ops[0]]
            elif i.is_call():
                tg = [i.args[k] for k in s.written_args(f, i) if k < len(i.args)]
            for t in tg:
                for r in s.roots(f, t):
                    if r[0] == "g": gs.append((r[1], i))
                    elif r[0] == "a": ps.add(r[1])
        ch = ps != s.pmod[f.name] or len(gs) != len(s.g[f.name])
        s.pmod[f.name] = ps; s.g[f.name] = gs
        return ch
