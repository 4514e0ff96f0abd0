"""Range and LineRange constructors, accessors, conversions and membership tests are interpreted on
arbitrary arguments; every path has to produce an ordered pair of exactly the two given ends, hand
them out unchanged, convert lines to positions at column zero, and test membership half-open."""
from .common import *


def check(ctx, obs, tier):
    new = ctx.method("Range", "new")
    if need(obs, new, "Range::new"):
        I, st0, a, outs = analyse(ctx, obs, new)
        no_panic(obs, new, outs)
        s, e = position(I, st0, a[0]), position(I, st0, a[1])
        S, E = ctx.method("Range", "start"), ctx.method("Range", "end")
        for o in outs:
            if o[0] != "ret":
                continue
            for s2, k in pos_cases(o[1], s, e):
                lo, hi = (s, e) if k in "<=" else (e, s)
                for f, w in ((S, lo), (E, hi)):
                    if not need(obs, f, "Range accessors"):
                        continue
                    root = ("T", I.uid())
                    s3 = s2.copy()
                    s3.store[root] = o[2]
                    for q in I.run_body(s3, f, [T("ref", root)]):
                        if q[0] != "ret":
                            obs.decide(None if q[1].unk else False, "no-panic", where(f), "may panic", path_of(q[1]))
                            continue
                        g = position(I, q[1], q[2])
                        same_pos(obs, I, q[1], g, w, "ordered-ends", f, "the range built from two positions gives %s() = %s")
    lr(ctx, obs)
    f = ctx.method("Range", "includes")
    if need(obs, f, "Range::includes"):
        I, st0, a, outs = analyse(ctx, obs, f, setup=ordered_range(ctx))
        no_panic(obs, f, outs)
        r = deep_val(I, st0, a[0])
        lo, hi, p = position(I, st0, r.args[2]), position(I, st0, r.args[3]), position(I, st0, a[1])

        def want(s):
            return [(s3, k1 in "<=" and k2 == "<") for s2, k1 in pos_cases(s, lo, p) for s3, k2 in pos_cases(s2, p, hi)]
        check_bool(obs, I, f, outs, want, "half-open", "Range::includes")


    plain(ctx, obs, "Range")
    plain(ctx, obs, "LineRange")


def ordered_range(ctx):
    return None


def same_pos(obs, I, st, got, want, rule, f, msg):
    if got is None:
        obs.dunno(rule, where(f), "position not understood")
        return
    for i, n in ((0, "line"), (1, "offset")):
        v = equal(I, st, got[i], want[i])
        obs.decide(v, rule, where(f), msg % (f["item"], show(got[i])) + " for its %s, %s is required" % (n, show(want[i])), path_of(st), key=rule + "@" + canon(f["name"]))


def lr(ctx, obs):
    new, S, E = ctx.method("LineRange", "new"), ctx.method("LineRange", "start"), ctx.method("LineRange", "end")
    to, ti, inc = ctx.method("LineRange", "to_range"), ctx.method("LineRange", "to_inclusive_range"), ctx.method("LineRange", "includes")
    RS, RE = ctx.method("Range", "start"), ctx.method("Range", "end")
    for f in (new, S, E, to, ti, inc, RS, RE):
        if not need(obs, f, "LineRange/Range functions"):
            return
    I, st0, a, outs = analyse(ctx, obs, new)
    no_panic(obs, new, outs)
    x, y = a[0], a[1]

    def call(st, f, v, *more):
        root = ("T", I.uid())
        s3 = st.copy()
        s3.store[root] = v
        return I.run_body(s3, f, [T("ref", root)] + list(more))

    for o in outs:
        if o[0] != "ret":
            continue
        for s2, k in cases(o[1], x, y):
            lo, hi = (x, y) if k in "<=" else (y, x)
            for f, w in ((S, lo), (E, hi)):
                for q in call(s2, f, o[2]):
                    if q[0] == "ret":
                        obs.decide(equal(I, q[1], q[2], w), "ordered-ends", where(f), "gives %s, %s is required" % (show(I.val(q[1], q[2])), show(w)), path_of(q[1]), key="ordered-ends@" + canon(f["name"]))
            for f, w in ((to, hi), (ti, add(hi, I_1))):
                for q in call(s2, f, o[2]):
                    if q[0] != "ret":
                        obs.decide(None if q[1].unk else False, "no-panic", where(f), "may panic: %s" % q[2], path_of(q[1]), key="panic@" + canon(f["name"]))
                        continue
                    for acc, wl in ((RS, lo), (RE, w)):
                        for z in call(q[1], acc, q[2]):
                            if z[0] == "ret":
                                same_pos(obs, I, z[1], position(I, z[1], z[2]), (wl, Z0), "line-conversion", f, "the converted range's %s " + acc["item"] + "() is %s")
            c = T("sym", "line", None)
            for q in call(s2, inc, o[2], c):
                if q[0] != "ret":
                    continue
                for s4, r in truth(q[1], I.val(q[1], q[2])):
                    for s5, k1 in cases(s4, lo, c):
                        for s6, k2 in cases(s5, c, hi):
                            w = k1 in "<=" and k2 == "<"
                            obs.decide(r == w if not s6.unk else None, "half-open", where(inc), "returns %s for a line %s the start and %s the end" % (r, {"<": "after", "=": "at", ">": "before"}[k1], {"<": "before", "=": "at", ">": "after"}[k2]), path_of(s6), key="half-open@LineRange")


I_1 = T("int", 1)
Z0 = T("int", 0)
