#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT FILE OLD NEW [FILE OLD NEW ...]: write seeded/ID/patch.diff and meta.json (development aid)"""
import sys, os, json, shutil, subprocess, tempfile
i, prop, needs, what = sys.argv[1:5]; ed = sys.argv[5:]
d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); out = os.environ.get("SEEDOUT", "/verif/seeded/") + i
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/w"])
    for f, a, b in zip(ed[0::3], ed[1::3], ed[2::3]):
        p = d + "/w/" + f; s = open(p).read()
        n = 0
        if a[:1] == "#" and a[1:2].isdigit(): n = int(a[1]); a = a[3:]
        elif s.count(a) != 1: sys.exit("%d occurrences of %r" % (s.count(a), a))
        k = -1
        for _ in range(n + 1): k = s.index(a, k + 1)
        open(p, "w").write(s[:k] + b + s[k + len(a):])
    os.makedirs(out, exist_ok=True)
    df = subprocess.check_output(["git", "-C", d + "/w", "diff"], text=True)
    open(out + "/patch.diff", "w").write(df)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(out + "/meta.json", "w"), indent=1)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/w"]); shutil.rmtree(d)
