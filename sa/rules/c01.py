"""C01: nothing is thrown across the C interface; failure is reported as failure; allocation pairs match."""
from .. import ir
from ..ir import Broken, short
from ..flow import may_throw, pad_of, catch_all, values_from, is_zero

ALLOC = {"_Znam": "new[]", "_Znwm": "new", "malloc": "malloc", "calloc": "malloc", "realloc": "malloc", "_ZnamRKSt9nothrow_t": "new[]"}
FREE = {"_ZdaPv": "new[]", "_ZdaPvm": "new[]", "_ZdlPv": "new", "_ZdlPvm": "new", "free": "malloc"}

def run(R):
    R.rule("C01.caught", "every call under a C entry point that may throw has an unwind edge to a catch-all handler that returns", floor=12)
    R.rule("C01.failure-value", "every path through a handler returns the failure value (false / null, 0)", floor=3)
    R.rule("C01.alloc-pair", "memory returned by a C entry point is allocated by the family its release function frees", floor=2)
    R.rule("C01.length", "the length returned with a buffer is the allocated length", floor=1)
    entry = lambda f, m, d: f.endswith("c_bindings/c_wrapper.cpp") and not m.startswith(("_Z", "__", "_GLOBAL"))
    m = ir.view_if("c_wrapper", entry, lambda f, mm, d: not f.startswith("src/c_bindings/") )
    fs = list(m.funcs.values())
    names = {f.name for f in fs}
    need = {"create_discriminant_wrapper", "prove_wrapper", "verify_n_wesolowski_wrapper", "delete_byte_array"}
    if not need <= names: raise Broken("C entry points missing: %s" % (need - names))
    freed = {}
    allocs = []
    for f in fs:
        R.saw("C entry points", f.name)
        live = f.reach_entry()
        pads = set()
        nc = 0
        for i in f.all():
            if i.bb not in live: continue
            if not may_throw(i): continue
            nc += 1
            what = "call to %s" % short(i.dem) if i.is_call() else i.op
            if i.op != "invoke":
                R.bad("C01.caught", i.where(), "%s: %s may throw and no handler encloses it: the exception leaves the C interface" % (f.name, what), key="%s/%s uncaught" % (f.name, what)); continue
            lp = pad_of(f, i)
            if lp is None or not catch_all(lp):
                R.bad("C01.caught", i.where(), "%s: the handlers around the %s do not catch every exception" % (f.name, what), key="%s/%s partial" % (f.name, what)); continue
            after = {i.d["unw"]} | f.reachable(i.d["unw"])
            term = [b for b in after if f.blocks[b].term.op in ("unreachable", "resume")]
            rets = [b for b in after if f.blocks[b].term.op == "ret"]
            # a throw/terminate inside the handler
            if term or not rets:
                R.bad("C01.caught", i.where(), "%s: an exception from the %s ends in termination or propagation, not in a return" % (f.name, what), key="%s/%s terminates" % (f.name, what)); continue
            R.ok("C01.caught", "%s %s in %s" % (i.where(), what, f.name))
            pads.add(i.d["unw"])
        for p in pads:
            after = {p} | f.reachable(p)
            # handlers come back into common code: restrict to edges leaving handler-only blocks
            normal = normal_blocks(f)
            only = after - normal
            for b in after:
                t = f.blocks[b].term
                if t.op != "ret" or not t.ops: continue
                vs = ret_values(f, t, only, p)
                badv = [v for v in vs if not is_zero(v)]
                R.check("C01.failure-value", not badv, t.where(), "%s returns %s on a path where an exception was caught" % (f.name, "a success value" if badv else "failure"), inst="%s pad@%s" % (f.name, f.blocks[p].insts[0].where()), key="%s success after exception" % f.name)
        # allocation family
        for i in f.calls():
            if i.callee in FREE and i.args and root_arg(f, i.args[0]) is not None: freed[f.name] = (FREE[i.callee], i)
        for b in f.blocks:
            t = b.term
            if t.op == "ret" and t.ops and b.b in live:
                for a, ln in returned_buffers(f, t): allocs.append((f, a, ln))
    for f, a, ln in allocs:
        fam = ALLOC[a.callee]
        fr = freed.get("delete_byte_array")
        if fr is None:
            R.bad("C01.alloc-pair", a.where(), "delete_byte_array releases nothing", key="no release"); continue
        R.check("C01.alloc-pair", fr[0] == fam, fr[1].where(), "%s allocates with %s but delete_byte_array releases with the %s family" % (f.name, fam, fr[0]), inst="%s: %s" % (f.name, fam), key="%s/%s mismatch" % (f.name, fam))
        if fr[0] == fam: R.ok("C01.alloc-pair", "delete_byte_array: %s" % fr[0])
        R.check("C01.length", same_value(f, a.args[0], ln), a.where(), "%s: the returned length is not the allocated length" % f.name, key="%s length" % f.name)
    if not allocs: raise Broken("no returned buffer found")

def normal_blocks(f):
    """blocks reachable without following an unwind edge"""
    seen = {0}; st = [0]
    while st:
        b = f.blocks[st.pop()]
        for z in ([b.term.d["norm"]] if b.term.op == "invoke" else b.succ):
            if z not in seen: seen.add(z); st.append(z)
    return seen

def ret_values(f, ret, only, pad):
    v = ret.ops[0]
    i = f.inst(v)
    vs = set()
    def go(v, seen):
        if v in seen: return
        seen.add(v)
        i = f.inst(v)
        if i is None: vs.add(v); return
        if i.op == "phi":
            inc = f.phi_inc(i)
            r = [(x, b) for x, b in inc if b in only]
            if not r and i.bb in only: r = inc
            if r:
                for x, b in r: go(x, seen)
            else: vs.add(v)
            return
        if i.op in ("insertvalue",):
            go(i.ops[0], seen); go(i.ops[1], seen); return
        if i.op == "select": go(i.ops[1], seen); go(i.ops[2], seen); return
        if i.op in ("zext", "trunc", "and", "or"): 
            for o in i.ops: go(o, seen)
            return
        if i.op == "load":
            base, off = f.base_off(i.ops[0])
            # value stored on handler-only paths
            st = [u for u in f.all() if u.op == "store" and f.base_off(u.ops[1]) == (base, off)]
            hs = [u for u in st if u.bb in only]
            if hs:
                for u in hs: go(u.ops[0], seen)
            else: vs.add(v)
            return
        vs.add(v)
    go(v, set())
    return vs

def root_arg(f, v):
    while True:
        if v[0] == "a": return v
        i = f.inst(v)
        if i is None: return None
        if i.op in ("getelementptr", "bitcast", "load"): v = i.ops[0]; continue
        if i.op == "extractvalue": v = i.ops[0]; continue
        if i.op == "alloca":
            st = [u for u in f.all() if u.op == "store" and f.base_off(u.ops[1])[0] == v]
            for u in st:
                r = root_arg(f, u.ops[0])
                if r: return r
            return None
        return None

def returned_buffers(f, ret):
    out = []
    seen = set()
    def leaves(v, acc):
        if v in seen_: return
        seen_.add(v)
        i = f.inst(v)
        if i is None: acc.append((v, None)); return
        if i.op == "insertvalue":
            acc.append((i.ops[1], i.d["idx"][0])); leaves(i.ops[0], acc); return
        if i.op == "phi":
            for x, _ in f.phi_inc(i): leaves(x, acc)
            return
        if i.op == "load":
            base, off = f.base_off(i.ops[0])
            for u in f.all():
                if u.op == "store" and f.base_off(u.ops[1])[0] == base:
                    o = f.base_off(u.ops[1])[1]
                    acc.append((u.ops[0], 0 if o == 0 else 1))
            return
        acc.append((v, None))
    seen_ = set(); acc = []
    leaves(ret.ops[0], acc)
    ptrs = []; lens = []
    for v, k in acc:
        for s in values_from(f, v, None):
            i = f.inst(s)
            if i is not None and i.is_call() and i.callee in ALLOC: ptrs.append(i)
        if k == 1: lens += [x for x in values_from(f, v, None) if not is_zero(x)]
    for p in ptrs:
        for l in lens: out.append((p, l))
    return out

def same_value(f, a, b, d=0):
    if a == b: return True
    x, y = f.inst(a), f.inst(b)
    if x is None or y is None or d > 6: return False
    if x.op != y.op or x.op == "phi": return False
    if x.is_call():
        return x.callee == y.callee and len(x.args) == len(y.args) and all(same_value(f, p, q, d + 1) for p, q in zip(x.args, y.args)) and short(x.dem).split("::")[-1] in ("size", "length")
    if x.op in ("load", "alloca"): return False
    return len(x.ops) == len(y.ops) and all(same_value(f, p, q, d + 1) for p, q in zip(x.ops, y.ops))
