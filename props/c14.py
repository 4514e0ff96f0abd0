"""The comparison functions of Position are interpreted on two arbitrary positions; on every abstract
path, and for every feasible ordering of the two lines and of the two offsets, the result has to be
the lexicographic one (and equality has to be equality of both coordinates)."""
from .common import *

ORD = {0: "<", 1: "=", 2: ">", -1: "<"}


def check(ctx, obs, tier):
    cmp = ctx.method("Position", "partial_cmp", "PartialOrd")
    if need(obs, cmp, "Position::partial_cmp"):
        I, st0, a, outs = analyse(ctx, obs, cmp)
        no_panic(obs, cmp, outs)
        p, q = position(I, st0, a[0]), position(I, st0, a[1])
        for o in outs:
            if o[0] != "ret":
                continue
            for s2, x in opt(I, o[1], o[2]):
                for s3, k in pos_cases(s2, p, q):
                    if x is None:
                        r = "none"
                    else:
                        y = deep_val(I, s3, x)
                        r = ORD.get(y.args[1]) if y.op == "adt" else None
                    v = None if (r is None or s3.unk) else r == k
                    obs.decide(v, "lexicographic", where(cmp), "compares as %s where the positions are %s" % (r, k), path_of(s3), key="lexicographic@partial_cmp")
    want = {
        "lt": lambda k: k == "<", "le": lambda k: k in "<=", "gt": lambda k: k == ">", "ge": lambda k: k in ">=",
    }
    for tr in ("PartialOrd", "PartialEq", "Ord"):
        for f in ctx.methods("Position", tr):
            n = f["item"]
            w = {"eq": lambda k: k == "=", "ne": lambda k: k != "="}.get(n) or want.get(n)
            if n == "cmp":
                I, st0, a, outs = analyse(ctx, obs, f)
                p, q = position(I, st0, a[0]), position(I, st0, a[1])
                for o in outs:
                    if o[0] == "ret":
                        for s3, k in pos_cases(o[1], p, q):
                            y = deep_val(I, s3, o[2])
                            r = ORD.get(y.args[1]) if y.op == "adt" else None
                            obs.decide(None if r is None or s3.unk else r == k, "lexicographic", where(f), "compares as %s where the positions are %s" % (r, k), path_of(s3), key="lexicographic@cmp")
                continue
            if w is None:
                continue
            I, st0, a, outs = analyse(ctx, obs, f)
            no_panic(obs, f, outs)
            p, q = position(I, st0, a[0]), position(I, st0, a[1])
            check_bool(obs, I, f, outs, lambda s, p=p, q=q, w=w: [(s2, w(k)) for s2, k in pos_cases(s, p, q)], "lexicographic", n)
    plain(ctx, obs, "Position")
    for f in (ctx.method("Position", "new"), ctx.method("Position", "default", "Default")):
        if f is not None:
            origin(ctx, obs, f, "origin")
    if not ctx.methods("Position", "PartialEq"):
        obs.dunno("anchor", "Position", "no equality")
