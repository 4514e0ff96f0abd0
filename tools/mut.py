#!/usr/bin/env python3
"""mut.py <file under src> <old> <new> <n-th occurrence, from 0> <check>...: runs checks against an edited /repo, then undoes the edit"""
import subprocess, sys, os
f, old, new, n = sys.argv[1:5]
p = "/repo/src/" + f
s = open(p).read()
ps = s.split(old)
n = int(n)
if len(ps) < n + 2:
    sys.exit("no such text")
open(p, "w").write(old.join(ps[:n + 1]) + new + old.join(ps[n + 1:]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    for c in sys.argv[5:]:
        r = subprocess.run(["python3", here + "/check.py", c], capture_output=True, text=True)
        print("\n".join(l[:330] for l in (r.stdout + r.stderr).splitlines()[:int(os.environ.get("LINES_", "3"))]))
finally:
    open(p, "w").write(s)
