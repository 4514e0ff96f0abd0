"""Position + Distance and Position += Distance are interpreted on arbitrary values and must agree with
the definition of moving by a distance; the distance of a string is compared, as a symbolic value,
with the number of line feeds it contains and the number of user-perceived characters after the last."""
from .common import *


def check(ctx, obs, tier):
    f, g = ctx.method("Position", "add", "Add"), ctx.method("Position", "add_assign", "AddAssign")
    for fn in (f, g):
        if not need(obs, fn, "Position + Distance"):
            continue
        I, st0, a, outs = analyse(ctx, obs, fn)
        no_panic(obs, fn, outs)
        p = position(I, st0, a[0])
        d = deep_val(I, st0, a[1])
        dl, do = d.args[2], d.args[3]
        for o in outs:
            if o[0] != "ret":
                continue
            r = position(I, o[1], o[2] if fn is f else a[0])
            for s2, k in cases(o[1], dl, T("int", 0)):
                want = (add(p[0], dl), do if k == ">" else add(p[1], do))
                for i, n in ((0, "line"), (1, "offset")):
                    obs.decide(equal(I, s2, r[i], want[i]) if r else None, "moved-by", where(fn), "%s becomes %s, %s is required" % (n, show(r[i]) if r else "?", show(want[i])), path_of(s2), key="moved-by@" + fn["item"])
    plain(ctx, obs, "Distance")
    f = ctx.method("Distance", "of_str")
    if need(obs, f, "Distance::of_str"):
        I, st0, a, outs = analyse(ctx, obs, f)
        no_panic(obs, f, outs)
        s = I.val(st0, a[0])
        nl = T("str", "\n")
        n, last = T("occ", s, nl), T("lastseg", s, nl)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            d = deep_val(I, st, o[2])
            if d.op != "adt":
                obs.dunno("distance", where(f), "value not understood")
                continue
            want = (n, T("len", T("graphemes", last, TRUE)))
            for i, nm in ((0, "lines"), (1, "offset")):
                obs.decide(equal_text(I, st, d.args[2 + i], want[i]), "distance-of-text", where(f), "%s is %s, %s is required" % (nm, show(d.args[2 + i]), show(want[i])), path_of(st), key="distance@" + nm)
