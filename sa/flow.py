"""Small path/value utilities over the SSA model."""
from .ir import short
NOTHROW_PREFIX = ("__gmp", "llvm.", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_get", "__cxa_allocate", "__cxa_free", "__cxa_guard", "__cxa_atexit", "__cxa_thread_atexit", "_ZdlPv", "_ZdaPv", "_ZSt9terminate", "__clang_call_terminate", "_ZSt4moveI", "_ZSt7forwardI")

def may_throw(i):
    """may this call raise a C++ exception? (C functions never do; C++ functions unless noexcept)"""
    if not i.is_call(): return i.op == "resume"
    if i.d.get("nounwind"): return False
    c = i.callee
    if c is None: return True
    if c in ("__cxa_throw", "__cxa_rethrow", "_Unwind_Resume", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length"): return True
    if c.startswith(NOTHROW_PREFIX): return False
    if not c.startswith("_Z"): return False
    d = i.fn.mod.decls.get(c)
    if d and d["nounwind"]: return False
    g = i.fn.mod.funcs.get(c)
    if g and g.nounwind: return False
    return True

def pad_of(f, inv):
    """landingpad instruction of an invoke"""
    for x in f.blocks[inv.d["unw"]].insts:
        if x.op == "landingpad": return x
    return None

def catch_all(lp):
    return any(k == "catch" and tuple(v) == ("n",) for k, v in lp.d["clauses"])

def values_from(f, v, blocks, seen=None):
    """possible SSA sources of v when control came through `blocks` (phi inputs restricted to edges from them)"""
    if seen is None: seen = set()
    if v in seen: return set()
    seen.add(v)
    i = f.inst(v)
    if i is None: return {v}
    if i.op == "phi":
        r = set()
        for x, b in f.phi_inc(i):
            if blocks is None or b in blocks: r |= values_from(f, x, blocks, seen)
        return r
    if i.op == "select":
        return values_from(f, i.ops[1], blocks, seen) | values_from(f, i.ops[2], blocks, seen)
    if i.op in ("zext", "sext", "trunc", "freeze"):
        src = values_from(f, i.ops[0], blocks, seen)
        if all(x[0] == "c" for x in src): return src
        return {v}
    if i.op == "insertvalue":
        return values_from(f, i.ops[0], blocks, seen) | values_from(f, i.ops[1], blocks, seen)
    return {v}

def is_zero(v):
    return v in (("n",), ("z",), ("u",)) or (v[0] == "c" and v[1] == "0")
