#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when sa/rules/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {}
exec(open(V + "/tools/techniques.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/sa/rules/%s.py" % (V, i.lower())):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique="static analysis: " + t, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \".\"); from sa import ir; ir.build_tool()'", checks=checks, not_applicable=na,
               notes="Every check compiles the current /repo translation units to LLVM IR (clang 18, offline) in a scratch directory and decides rules over that program model; nothing from /repo is executed."),
          open(V + "/MANIFEST.json", "w"), indent=1)
