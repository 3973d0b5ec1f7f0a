"""Term constructors for the big-integer / form / string layer used by terms.Terms."""
from .terms import split_params
from .ir import short

# functions kept as calls: the algebra layer.  Their own contracts are separate rules.
KEEP_NAMES = {"DeserializeForm", "SerializeForm", "GetB", "HashPrime", "FastPow", "FastPowFormNucomp", "root", "operator*",
              "BytesToInt64", "Int64ToBytes", "Int32ToBytes", "CreateDiscriminant", "BytesToStr", "nudupl_form", "nucomp_form",
              "bqfc_serialize", "bqfc_deserialize", "multiply", "square", "abs", "gcd"}
KEEP_CLASSES = ("integer::", "form::", "PulmarkReducer::", "Reducer::", "ClassGroupContext::", "picosha2::", "generic::", "track_max_type::")
def keep_algebra(f, m, d):
    sh = short(d)
    return sh in KEEP_NAMES or sh.startswith(KEEP_CLASSES) or "picosha2::" in sh

PURE_SRET = {"DeserializeForm": "Deser", "FastPow": "PowMod", "FastPowFormNucomp": "FPow", "GetB": "GetB", "root": "Root", "operator*": "Mul", "multiply": "Mul",
             "CreateDiscriminant": "CreateD", "SerializeForm": "Ser", "HashPrime": "HashPrime", "form::from_abd": "FromABD", "form::identity": "Identity", "abs": "Abs", "integer::to_vector": "ToVec", "integer::to_string": "ToStr"}
PURE_RET = {"BytesToInt64": "BE64", "integer::operator==": "Eq", "form::operator==": "Eq", "integer::num_bits": "NumBits", "form::is_reduced": "IsReduced", "integer::prime": "Prime",
            "integer::get_bit": "GetBit"}

def base_name(sh): return sh.split("[")[0]
class Model:
    INTEGER = ("Import", "PowM", "PowMod", "Root", "GetB", "HashPrime", "CreateD", "Abs")
    def covers(s, t, d):
        if t[0].startswith("integer::") or t[0] in s.INTEGER or t[0] in ("Ctor", "default") and t[1] == "integer" or t[0] == "call" and str(t[1]).startswith("integer::"): return d < 16
        return True
    def argt(s, T, st, a, ptype):
        if not T.is_ptr(a): return ("val", a)
        if "char" in ptype and ptype.endswith("*"): return ("ptr", a)
        return T.get(st, a)
    def iter_term(s, T, st, v):
        for _ in range(6):
            j = T.f.inst(v)
            if j is None: return None
            if j.op == "load":
                t = T.get(st, j.ops[0])
                if t[0] != "val": return None
                v = t[1]; continue
            return T.callres.get(j.i)
    def call(s, T, st, i, sh):
        a = i.args; ps, cm = split_params(i.dem)
        if sh.startswith("llvm."): return NotImplemented
        if i.callee == "__gmpz_import":
            T.put(st, a[0], ("Import", ("ptr", a[6])) + tuple(("val", x) for x in a[1:6])); return
        if i.callee in ("__gmpz_init", "__gmpz_clear"):
            if i.callee == "__gmpz_init": T.put(st, a[0], ("default", "integer"))
            return
        if i.callee == "__gmpz_powm_ui": T.put(st, a[0], ("PowM", T.get(st, a[1]), ("val", a[2]), T.get(st, a[3]))); return
        if i.callee == "__gmpz_powm": T.put(st, a[0], ("PowM", T.get(st, a[1]), T.get(st, a[2]), T.get(st, a[3]))); return
        if i.callee == "__gmpz_cmp": T.callres[i.i] = ("Cmp", T.get(st, a[0]), T.get(st, a[1])); return
        if base_name(sh) == "nudupl_form": T.put(st, a[0], ("Sq", T.get(st, a[1]), T.get(st, a[2]))); return
        if base_name(sh) == "nucomp_form": T.put(st, a[0], ("Comp", T.get(st, a[1]), T.get(st, a[2]), T.get(st, a[3]))); return
        if sh == "PulmarkReducer::reduce": return        # same group element
        if i.callee == "__gmpz_set": T.put(st, a[0], T.get(st, a[1])); return
        if i.callee == "__gmpz_neg": T.put(st, a[0], ("integer::operator-", T.get(st, a[1]))); return
        off = len(a) - len(ps)
        terms = lambda k0: tuple(s.argt(T, st, a[k], ps[k - off] if k >= off else "") for k in range(k0, len(a)))
        base = sh.split("[")[0]
        if base in PURE_SRET and i.ty == "void":
            T.put(st, a[0], (PURE_SRET[base],) + terms(1)); return
        if base in PURE_RET:
            T.callres[i.i] = (PURE_RET[base],) + terms(0); return
        cls = sh.split("::")[0]
        if cls in ("integer", "form"):
            if sh == cls + "::" + cls:                # constructors
                if not ps: T.put(st, a[0], ("default", cls)); return
                if ps[0] in (cls + " const&", cls + "&&"): T.put(st, a[0], T.get(st, a[1])); return
                T.put(st, a[0], ("Ctor", cls) + terms(1)); return
            if sh == cls + "::operator=":
                if ps[0] in (cls + " const&", cls + "&&"): T.put(st, a[0], T.get(st, a[1])); return
                T.put(st, a[0], ("Ctor", cls) + terms(1)); return
            if "~" in sh: return
            if sh == "form::reduce": return          # same group element
            if sh in ("integer::operator" + o for o in ("+=", "-=", "*=", "/=", "%=", "<<=", ">>=")):
                T.put(st, a[0], (sh[:-1], T.get(st, a[0])) + terms(1)); return
            if cm and i.ty == "void": T.put(st, a[0], (sh,) + terms(1)); return
            if cm: T.callres[i.i] = (sh,) + terms(0); return
            return NotImplemented
        if i.dem.startswith("std::pair<"):
            m = sh.split("::")[-1]
            if m == "pair" and len(ps) == 2: T.put(st, a[0], ("Pair", T.get(st, a[1]), T.get(st, a[2]))); return
            if m in ("pair", "operator=") and len(ps) == 1 and ps[0].startswith("std::pair<"): T.put(st, a[0], T.get(st, a[1])); return
            if m.startswith("~"): return
        if sh.endswith("__normal_iterator::__normal_iterator") and len(ps) == 1 and len(a) == 2:
            T.put(st, a[0], T.get(st, a[1])); return
        if "basic_string<" in i.dem or "std::vector<" in i.dem.split("(")[0]:
            m = sh.split("::")[-1]
            if m in ("basic_string", "vector") and len(ps) == 1 and (ps[0].endswith("const&") or ps[0].endswith("&&")) and ("basic_string" in ps[0] or ps[0].startswith("std::vector")):
                T.put(st, a[0], T.get(st, a[1])); return
            if m == "vector" and len(ps) >= 1 and "initializer_list" in ps[0] and len(a) >= 3 and a[2][0] == "c":
                r, o = T.obj(a[1]); es = 4 if "vector<int" in i.dem else 1
                T.put(st, a[0], ("InitList",) + tuple(st.get((r, (o or 0) + es * k), "?") for k in range(int(a[2][1])))); return
            if m == "insert" and len(a) >= 4:
                tt = lambda v: s.iter_term(T, st, v)
                p, b, e = tt(a[-3]), tt(a[-2]), tt(a[-1]); cur = T.get(st, a[-4])
                if p == ("end", cur) and b and e and b[0] == "begin" and e == ("end", b[1]): T.put(st, a[-4], ("Concat", cur, b[1])); return
                T.put(st, a[-4], ("call", "insert", i.i, 0)); return
            if m == "vector" and len(ps) >= 2 and "iterator" in ps[0]:
                T.put(st, a[0], ("Range",) + tuple(("val", x) for x in a[1:3])); return
            if m == "operator=" and len(ps) == 1 and (ps[0].endswith("const&") or ps[0].endswith("&&")):
                T.put(st, a[0], T.get(st, a[1])); return
            if m in ("data", "c_str", "begin", "end", "cbegin", "cend", "size", "length", "empty") and "const" and len(ps) == 0:
                T.callres[i.i] = (m if m not in ("c_str", "length") else {"c_str": "data", "length": "size"}[m], T.get(st, a[0])); return
            if m.startswith("~"): return
        return NotImplemented
