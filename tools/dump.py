#!/usr/bin/env python3
"""dump.py <Type> <method> [Trait]: what the interpreter makes of a method (for development)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from absint import build
from absint.ctx import load
from props.common import *
from props.buf import run_buffer, world
ctx = load(build.dump()[0])
f = ctx.method(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
obs = Obs("X")
I, st0, a, outs = run_buffer(ctx, obs, f) if sys.argv[1] == "Buffer" else analyse(ctx, obs, f, world(ctx) if sys.argv[1] in ("Cursor", "Workspace") else None)
for o in outs:
    st = o[1]
    print(o[0], "unk" if st.unk else "", list(st.unk)[:2] if st.unk else "")
    print("   pc:", " and ".join(show(c, 7) for c in st.pc))
    print("   =>", show(deep_val(I, st, o[2]), 12) if o[0] == "ret" else o[2])
    for e in st.events:
        print("   ev:", str(e)[:200])
    for k, v in st.store.items():
        if len(sys.argv) > 4: print("     ", k, show(v, 8))
    if os.environ.get("LES"):
        for t in st.facts.les: print("      le0", show(t, 9))
        print("      feasible", st.facts.feasible())
