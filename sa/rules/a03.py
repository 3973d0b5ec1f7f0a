from .. import ir
from ..ir import Broken, short
from ..paths import *
from .v05 import func

COEF = {0: "a", 16: "b", 32: "c"}
XG = {"mpz_xgcd_partial": "bbbbi"}

def outcomes(f, alias):
    """{(branch facts, (a, b, c) of the destination)} over all paths; arguments in `alias` denote the same object"""
    def hook(S, p, i):
        if short(i.dem) != f.short: return None
        objs = [S.obj2(p, a) for a in i.args]
        cont = tuple(tuple(S.mget(p, (r, (o or 0) + k)) for k in COEF) for r, o in objs[1:3])
        r, o = objs[0]
        for k in COEF: p.mem[(r, o + k)] = ("self", k) + cont
        p.events.append(("call", i, []))
        return True
    PT = Paths(f, sigs=XG, alias=alias, hook=hook)
    dst = alias.get(("a", 0), ("a", 0))
    res = {}
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        out = tuple(PT.mget(p, (dst, k)) for k in COEF)
        res.setdefault(frozenset((k, v) for k, v in p.facts.items() if not noise(k)), set()).add(out)
    return res, PT

def noise(t):
    """conditions that do not depend on the numbers (initialisation guards)"""
    return not mentions(t)
def mentions(t):
    if not isinstance(t, tuple): return False
    if len(t) == 3 and t[0] == "in" and t[1][0] == "a": return True
    return any(mentions(x) for x in t)

def run(R):
    R.rule("A03.alias", "the coefficient terms a squaring/composition kernel computes are the same when the destination is one of the operands, on every path", floor=6)
    R.rule("A03.copy", "the wrappers hand all three coefficients of each operand to the kernel and take all three results back", floor=2)
    for tu in ("fastvdf", "vdf_client"):
        for name, als in (("qfb_nudupl", ({("a", 0): ("a", 1)},)),
                          ("qfb_nucomp", ({("a", 0): ("a", 1)}, {("a", 0): ("a", 2)}, {("a", 0): ("a", 1), ("a", 2): ("a", 1)}))):
            f = func(tu, lambda n, d: n == name, lambda n, d: n == "mpz_xgcd_partial" or n == name)
            R.saw("functions", "%s: %s" % (tu, f.dem[:100])); w = "%s:%d" % (ir.rel(f.file), f.line)
            for al in als:
                ref, PT = outcomes(f, {k: v for k, v in al.items() if k != ("a", 0)})
                got, PA = outcomes(f, al)
                R.saw("paths", "%s %s: %d" % (tu, name, len(PT.done)))
                if not ref: raise Broken("%s has no returning path" % name)
                lab = "destination = " + " = ".join(["first operand"] * (al.get(("a", 0)) == ("a", 1)) + ["second operand"] * (al.get(("a", 0)) == ("a", 2) or ("a", 2) in al))
                bad = None
                for k, v in ref.items():
                    g = got.get(k)
                    if g is None: bad = "a branch depends on a coefficient that was already overwritten"; break
                    if g != v:
                        c = [n for j, n in enumerate("abc") if {x[j] for x in g} != {x[j] for x in v}]
                        bad = "coefficient %s is computed from an operand coefficient that was already overwritten" % ", ".join(c); break
                if bad is None and set(got) - set(ref): bad = "a branch depends on a coefficient that was already overwritten"
                R.check("A03.alias", bad is None, w, "%s, %s: %s" % (name, lab, bad), inst="%s %s, %s: %d path classes agree" % (tu, name, lab, len(ref)), key="%s %s" % (name, lab))
        for name, kern, nop in (("nudupl_form", "qfb_nudupl", 1), ("nucomp_form", "qfb_nucomp", 2)):
            f = func(tu, lambda n, d: n == name, lambda n, d: n == kern)
            wrapper(R, tu, f, name, kern, nop)

def wrapper(R, tu, f, name, kern, nop):
    """struct copies in and out: coefficient k of the kernel's argument j is coefficient k of the wrapper's form j"""
    w = "%s:%d" % (ir.rel(f.file), f.line); good = True; n = 0
    def hook(S, p, i):
        if short(i.dem) == kern:
            objs = [S.obj2(p, a) for a in i.args]
            ins = [tuple(content(S, p, r, (o or 0) + k) for k in COEF) for r, o in objs[1:1 + nop]]
            r, o = objs[0]
            for k in COEF: p.mem[(r, o + k)] = ("K", k)
            p.events.append(("kernel", i, ins, objs)); return True
    PT = Paths(f, hook=hook)
    for p in PT.done:
        if p.events[-1][0] != "ret": continue
        n += 1
        ks = [e for e in p.events if e[0] == "kernel"]
        if len(ks) != 1: good = False; continue
        ins, objs = ks[0][2], ks[0][3]
        for j in range(nop):
            good &= ins[j] == tuple(("in", ("a", 1 + j), k) for k in COEF)
        for k in COEF: good &= content(PT, p, ("a", 0), k) == ("K", k)
    R.check("A03.copy", good and n, w, "%s does not pass all coefficients of its operands to %s and its results back" % (name, kern), inst="%s %s" % (tu, name), key=name + " copy")

def content(S, p, r, o):
    t = p.mem.get((r, o))
    if t is None: return ("in", r, o)
    if t[0] == "copy": return t[1]
    return t
