#!/usr/bin/env python3
"""mut.py CHECKS FILE OLD NEW [FILE OLD NEW ...]: run checks on a scratch copy of the repository with textual edits (development aid)"""
import sys, os, shutil, subprocess, tempfile
checks = sys.argv[1].split(","); ed = sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp"); r = d + "/repo"
try:
    shutil.copytree(os.environ.get("MUTBASE", "/repo"), r, ignore=shutil.ignore_patterns("_build*", ".git", "target"))
    for f, a, b in zip(ed[0::3], ed[1::3], ed[2::3]):
        p = r + "/" + f; s = open(p).read()
        n = 1
        if a.startswith("@all:"): a = a[5:]; n = s.count(a)
        assert a and s.count(a) == n and n, "%s: %d occurrences of %r" % (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    for c in checks:
        q = subprocess.run(["python3", "check.py", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        out = [l[:260] for l in (q.stdout + q.stderr).splitlines() if l.startswith(("VIOL", "ANALYSIS", "OK", "Trace", "KNOWN")) or "Error" in l]
        print(c, "rc=%d" % q.returncode, "\n   ".join(out[:5] + (["... %d lines" % len(out)] if len(out) > 5 else [])))
finally:
    shutil.rmtree(d)
