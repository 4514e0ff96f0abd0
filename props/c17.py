"""LineIterator::next is interpreted on an arbitrary iterator whose next line begins anywhere in the text. Its loop over
characters is summarised by what it finds: the first line feed, or none. Every path must return exactly the text up to
and including that line feed (or the rest), with the number of the line, and leave the iterator at its end; together
with what `new` makes, this is the partition of the text into lines by induction. Which field plays which part is found
by trying: some assignment of parts to fields must satisfy every obligation."""
from .common import *
from .buf import Z0, I1
from absint.models import rd
import itertools

ASSUMPTIONS = ["offsets of characters are where str::chars says they begin"]


def sure(st, v):
    return unsure(st, v, True)


def check(ctx, obs, tier):
    tid = ctx.adt("line_iterator::LineIterator")
    nxt = ctx.method("LineIterator", "next", "Iterator")
    new = ctx.method("LineIterator", "new")
    if tid is None or nxt is None or new is None:
        obs.dunno("anchor", "LineIterator", "not found")
        return
    for f in ctx.methods("LineIterator"):
        if f.get("impl_trait") and f["item"] != "next":
            obs.dunno("anchor", where(f), "an iterator method of its own, which is not analysed")
    texts = ctx.field_by(tid, lambda n, t: t["k"] == "ref" and ctx.types[t["ty"]]["k"] == "str")
    nums = ctx.field_by(tid, lambda n, t: t["s"] == "usize")
    flags = ctx.field_by(tid, lambda n, t: t["s"] == "bool")
    if len(texts) != 1 or len(nums) < 2 or len(flags) != 1:
        obs.dunno("layout", "LineIterator", "representation not understood")
        return
    best = None
    for E in nums:
        x = run(ctx, obs, nxt, texts[0], E)
        y = made(ctx, obs, new)
        for N in nums:
            if N == E:
                continue
            r = judge(ctx, nxt, x, texts[0], E, N, flags[0], new, y)
            bad = sum(1 for q in r if q[0] is not True)
            if best is None or bad < best[0]:
                best = bad, r
        if best and best[0] == 0:
            break
    if not any(q[1] == "no-panic" for q in best[1]):
        obs.ok("no-panic", where(nxt))
    for v, rule, wh, msg, path, key in best[1]:
        obs.decide(v, rule, wh, msg, path, key=key)


def run(ctx, obs, f, text, E):
    def setup(I, st, a):
        ref = a[0]
        v = I.force(st, I.read(st, ref.args[0], tuple(ref.args[1:])))
        D = rd(I, st, v.args[2 + text])
        st.facts.assume(le(v.args[2 + E], I.seq_len(D)))
    return analyse(ctx, obs, f, setup=setup)


def made(ctx, obs, f):
    return analyse(ctx, obs, f)


def judge(ctx, f, x, text, E, N, flag, new, y):
    I, st0, a, outs = x
    res = []

    def say(v, rule, msg, st, key):
        res.append((v, rule, where(f), msg, path_of(st), key))

    ref = a[0]
    v0 = I.force(st0, I.read(st0, ref.args[0], tuple(ref.args[1:])))
    D = rd(I, st0, v0.args[2 + text])
    e, n, d = v0.args[2 + E], v0.args[2 + N], v0.args[2 + flag]
    L = I.seq_len(D)
    for o in outs:
        st = o[1]
        if o[0] == "panic":
            say(None if st.unk or any(murky(c) for c in st.pc) else False, "no-panic", "may panic: %s" % o[2], st, "panic")
            continue
        if o[0] != "ret":
            continue
        v1 = I.force(st, I.read(st, ref.args[0], tuple(ref.args[1:])))
        if v1.op != "adt":
            say(None, "iterator", "the iterator afterwards is not understood", st, "iterator")
            continue
        say(sure(st, equal(I, st, rd(I, st, v1.args[2 + text]), D)), "text-kept", "iterating changes the text", st, "text")
        e1, n1, d1 = v1.args[2 + E], v1.args[2 + N], v1.args[2 + flag]
        for s2, ended in truth(st, d):
            if ended:
                for s3, r in opt(I, s2, o[2]):
                    say(sure(s3, r is None), "stays-ended", "an iteration that has ended yields another line", s3, "stays-ended")
                for s3, b in truth(s2, d1):
                    say(sure(s3, b), "stays-ended", "an iteration that has ended starts again", s3, "restarts")
                continue
            S = I.seq_slice(s2, D, e, L)
            v = T("app", "find", S, T("str", "\n"))
            I.enum_ty.setdefault(v, I.ty_by_s.get("std::option::Option<usize>"))
            for s3, at in opt(I, s2, v):
                end = L if at is None else add(add(e, at), I1)
                if not s3.facts.feasible():
                    continue
                for s4, r in opt(I, s3, o[2]):
                    if r is None:
                        say(sure(s4, False), "line", "ends although a line is left", s4, "line-missing")
                        continue
                    r = I.force(s4, I.val(s4, r))
                    if r.op != "tuple" or len(r.args) != 2:
                        say(None, "line", "the item is not understood", s4, "line")
                        continue
                    say(sure(s4, equal(I, s4, r.args[0], n)), "number", "the line with number %s is given as %s" % (show(n, 4), show(I.val(s4, r.args[0]), 5)), s4, "number")
                    want = I.seq_slice(s4, D, e, end)
                    got = rd(I, s4, r.args[1])
                    say(sure(s4, equal(I, s4, got, want)), "line", "yields %s where the line is %s" % (show(got, 6), show(want, 6)), s4, "line")
                say(sure(s3, equal(I, s3, e1, end)), "next-start", "continues at %s instead of at the line's end %s" % (show(I.val(s3, e1), 5), show(end, 5)), s3, "next-start")
                if at is not None:
                    say(sure(s3, equal(I, s3, n1, add(n, I1))), "next-number", "the next line gets number %s" % show(I.val(s3, n1), 5), s3, "next-number")
                for s4, b in truth(s3, d1):
                    say(sure(s4, b is (at is None)), "ends", "ends before the last line" if b else "goes on after the last line", s4, "ends")
    I, st0, a, outs = y
    wh = where(new)
    for o in outs:
        if o[0] != "ret":
            res.append((None, "new", wh, "may not return", path_of(o[1]), "new"))
            continue
        st = o[1]
        v = I.force(st, I.val(st, o[2]))
        if v.op != "adt":
            res.append((None, "new", wh, "not understood", path_of(st), "new"))
            continue
        ok = [equal(I, st, rd(I, st, v.args[2 + text]), rd(I, st0, a[0])), equal(I, st, v.args[2 + E], Z0), equal(I, st, v.args[2 + N], Z0), True if st.facts.decide(I.val(st, v.args[2 + flag])) is False else (None if taint(v.args[2 + flag]) else False)]
        for q, what in zip(ok, ("iterates over another text", "does not start at the beginning", "does not count from zero", "has ended from the start")):
            res.append((q, "new", wh, "a new iteration " + what, path_of(st), "new:" + what))
    return res
