"""The Python module surface as declared in the compiled binding unit: def name -> function body."""
import re
from . import ir
from .ir import Broken

_defs = None
def pybind_defs():
    """{python name: (mangled body, dem body)} of every m.def in PYBIND11_MODULE"""
    global _defs
    if _defs is not None: return _defs
    L = ir.listing("fastvdf")
    init = [(m, d) for f, m, d in L if d.startswith("pybind11_init_") and "::$_" not in d and d.endswith("(pybind11::module_&)")]
    if len(init) != 1: raise Broken("module init function not found")
    M = ir.view_if("fastvdf", lambda f, m, d: m == init[0][0], lambda f, m, d: True)
    f = M.funcs[init[0][0]]
    res = {}
    for i in f.calls():
        if "module_::def<" not in i.dem: continue
        g = next((a for a in i.args if a[0] == "g" and M.globals.get(a[1], {}).get("init")), None)
        if g is None: raise Broken("m.def with a computed name at " + i.where())
        name = M.globals[g[1]]["init"][1].rstrip("\0")
        mm = re.search(r"::(\$_\d+)", i.dem)
        body = None
        if mm:
            body = [(m, d) for _, m, d in L if d.startswith(init[0][1] + "::" + mm.group(1) + "::operator()")]
        else:
            fs = [a for a in i.args if a[0] == "f" or (a[0] == "g" and any(a[1] == m for _, m, _ in L))]
            body = [(m, d) for _, m, d in L if fs and m == fs[0][1]]
        if not body: raise Broken("body of python function %s not found" % name)
        if name in res: raise Broken("python function %s defined twice" % name)
        res[name] = (body[0][0], body[0][1], i)
    _defs = res
    return res
