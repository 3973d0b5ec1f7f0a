"""Byte-composition semantics of small (loop-free after unrolling) pack/unpack helpers."""
from . import ir
from .bools import const

UNROLL = "always-inline,function(sroa<modify-cfg>,loop-simplify,lcssa,loop(loop-rotate,indvars),loop-unroll-full,loop-unroll<O3;full-unroll-max=64>,sroa<modify-cfg>,instsimplify,simplifycfg)"

class Bytes:
    def __init__(s, f):
        s.f = f; s.mem = {}; s.order = []
        s.out = {}          # bytes stored through pointer parameters: (root, off) -> source
        for b in f.blocks:
            for i in b.insts:
                if i.op == "store":
                    r, o = f.base_off(i.ops[1])
                    if o is None: continue
                    for k, x in enumerate(s.val(i.ops[0])): s.put(r, o + k, x)
                elif i.is_call() and ("memcpy" in i.dem or "memmove" in i.dem):
                    n = const(i.args[2])
                    if n is None: continue
                    r, o = f.base_off(i.args[0]); r2, o2 = f.base_off(i.args[1])
                    if o is None or o2 is None: continue
                    for k, x in enumerate([s.get(r2, o2 + k) for k in range(n)]): s.put(r, o + k, x)
                elif i.is_call() and i.ty == "i64" and i.dem and i.i not in s.mem: pass
                if i.op == "load": s.mem[("load", i.i)] = s.load(i)
    def put(s, r, o, x): s.mem[(r, o)] = x
    def get(s, r, o):
        if (r, o) in s.mem: return s.mem[(r, o)]
        return ("m", r, o)
    def load(s, i):
        r, o = s.f.base_off(i.ops[0])
        if o is None: return None
        return [s.get(r, o + k) for k in range(i.d.get("size", 1))]
    def val(s, v, d=0):
        """bytes of an integer value, least significant first"""
        if d > 60: return []
        c = const(v)
        if c is not None:
            w = max(1, v[2] // 8)
            return [("k", (c >> (8 * k)) & 255) for k in range(w)]
        i = s.f.inst(v)
        if i is None:
            if v[0] == "a":
                ty = s.f.params[v[1]]["ty"]
                if ty.startswith("i"): return [("v", v, k) for k in range(max(1, int(ty[1:]) // 8))]
            return []
        w = max(1, int(i.ty[1:]) // 8) if i.ty.startswith("i") and i.ty[1:].isdigit() else 0
        Z = ("k", 0)
        unk = [("v", v, k) for k in range(w)]
        if i.op == "load": return s.mem.get(("load", i.i)) or unk
        if i.op in ("zext", "trunc"):
            a = s.val(i.ops[0], d + 1)
            return (a + [Z] * w)[:w]
        if i.op == "freeze": return s.val(i.ops[0], d + 1)
        if i.op in ("shl", "lshr"):
            c = const(i.ops[1])
            if c is None or c % 8: return unk
            a = s.val(i.ops[0], d + 1); n = c // 8
            return ([Z] * n + a)[:w] if i.op == "shl" else (a[n:] + [Z] * n)[:w]
        if i.op in ("or", "add", "xor"):
            a, b = s.val(i.ops[0], d + 1), s.val(i.ops[1], d + 1)
            if len(a) == len(b) == w and all(x == Z or y == Z for x, y in zip(a, b)): return [y if x == Z else x for x, y in zip(a, b)]
            return unk
        if i.op == "and":
            for x, y in ((0, 1), (1, 0)):
                c = const(i.ops[y])
                if c is not None:
                    a = s.val(i.ops[x], d + 1); r = []
                    for k in range(w):
                        m = (c >> (8 * k)) & 255
                        r.append(a[k] if m == 255 else Z if m == 0 else ("v", v, k))
                    return r
            return unk
        if i.is_call() and "bswap" in (i.callee or "") + i.dem: return s.val(i.args[0], d + 1)[::-1]
        return unk
