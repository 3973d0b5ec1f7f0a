"""Folding of extracted index/layout expressions (terms of paths.Paths) over a finite set of parameter values."""
from .bools import cmpc
def M(w): return (1 << w) - 1
def ev(t, env, memo=None):
    """unsigned value of the term, or None when it depends on something not in env"""
    if memo is None: memo = {}
    k = id(t)
    if k in memo: return memo[k]
    r = _ev(t, env, memo); memo[k] = r
    return r
def _ev(t, env, memo):
    if t in env: return env[t]
    o = t[0]
    if o == "k": return t[1] & M(64)
    if o == "not":
        a = ev(t[1], env, memo); return None if a is None else 1 - (a & 1)
    if o == "zext":
        a = ev(t[1], env, memo); return None if a is None else a & M(t[2])
    if o == "sext":
        a = ev(t[1], env, memo)
        if a is None: return None
        a &= M(t[2]); return (a | (M(64) & ~M(t[2]))) if a >> (t[2] - 1) else a
    if o == "trunc":
        a = ev(t[1], env, memo); return None if a is None else a & M(t[2])
    if o == "icmp":
        a, b = ev(t[2], env, memo), ev(t[3], env, memo)
        return None if a is None or b is None else int(cmpc(t[1], a, b, t[4]))
    if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem") and len(t) == 4:
        a, b = ev(t[1], env, memo), ev(t[2], env, memo); w = t[3]
        if a is None or b is None: return None
        a &= M(w); b &= M(w)
        if o in ("sdiv", "srem", "ashr"):
            sa = a - (1 << w) if a >> (w - 1) else a; sb = b - (1 << w) if b >> (w - 1) else b
            if o == "ashr": return (sa >> b) & M(w)
            if sb == 0: return None
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return (q if o == "sdiv" else sa - q * sb) & M(w)
        if o == "add": r = a + b
        elif o == "sub": r = a - b
        elif o == "mul": r = a * b
        elif o == "and": r = a & b
        elif o == "or": r = a | b
        elif o == "xor": r = a ^ b
        elif o == "shl": r = a << (b & 127)
        elif o == "lshr": r = a >> (b & 127)
        elif b == 0: return None
        else: r = a // b if o == "udiv" else a % b
        return r & M(w)
    if o in ("umin", "umax"):
        a, b = ev(t[1], env, memo), ev(t[2], env, memo)
        return None if a is None or b is None else (min if o == "umin" else max)(a, b)
    return None
def addr(t, env, memo=None):
    """(root, byte offset or None) of a pointer term"""
    off = 0
    for _ in range(50):
        if t[0] != "ptr": return t, off
        if t[2] is None: return t[1], None
        off = off + t[2] if off is not None else None
        r = t[1]
        if r[0] == "elem":
            if off is not None: off += r[3]
            for x, k in r[2]:
                v = ev(x, env, memo)
                if v is None or off is None: off = None
                else: off += (v - (1 << 64) if v >> 63 else v) * k
            t = r[1]; continue
        return r, off
    return t, None
_mc = {}
def memo_for(env):
    """shared memo table of one parameter assignment"""
    k = frozenset(env.items())
    m = _mc.get(k)
    if m is None:
        if len(_mc) > 400: _mc.clear()
        m = _mc[k] = {}
    return m
def feasible(p, env, memo=None, facts=None):
    memo = memo_for(env)
    """no branch fact of the path contradicts the values"""
    for t, tr in (p.facts if facts is None else facts).items():
        v = ev(t, env, memo)
        if v is not None and bool(v & 1) != tr: return False
    return True
