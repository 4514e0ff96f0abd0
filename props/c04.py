"""modified() is interpreted on an arbitrary buffer and has to be true exactly when an open group holds
operations or the mark differs from the number of recorded operations. Every public method that records,
undoes, saves or loads is interpreted, and the mark afterwards compared with what it has to be: kept by a
new operation only if the marked state can still be reached by undoing, untouched by undo and redo, set to
the current state by a successful save, reload or load from a file, untouched by a failed one."""
from .buf import *

ASSUMPTIONS = ["the text at each depth of the history is determined by the recorded operations (C02, C03)"]


def check(ctx, obs, tier):
    modified_is(ctx, obs)
    for f in edits(ctx, obs):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        each(ctx, obs, I, st0, f, a[0], outs, recorded_mark)
    for name in ("undo", "redo"):
        f = ctx.method("Buffer", name)
        if need(obs, f, "Buffer::" + name):
            I = World(ctx, opaque_ops=True)
            I, st0, a, outs = analyse(ctx, obs, f, I, over=alias(ctx))
            each(ctx, obs, I, st0, f, a[0], outs, moved_mark)
    for name in ("start_operation_group", "end_operation_group"):
        f = ctx.method("Buffer", name)
        if need(obs, f, "Buffer::" + name):
            I, st0, a, outs = run_buffer(ctx, obs, f)
            no_panic(obs, f, outs)
            each(ctx, obs, I, st0, f, a[0], outs, group_mark)
            for o in outs:
                if o[0] == "ret":
                    same_flag(ctx, obs, I, st0, f, a[0], o[1])
    for name in ("save", "reload"):
        f = ctx.method("Buffer", name)
        if need(obs, f, "Buffer::" + name):
            I, st0, a, outs = run_buffer(ctx, obs, f)
            no_panic(obs, f, outs)
            for o in outs:
                if o[0] == "ret":
                    saved(ctx, obs, I, st0, f, a[0], o[1], o[2])
    f = ctx.method("Buffer", "from_file")
    if need(obs, f, "Buffer::from_file"):
        I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
        for o in outs:
            if o[0] == "ret":
                for s2, v in result(I, o[1], o[2]):
                    if v is not None:
                        flag(ctx, obs, I, s2, f, v, False, "loaded", "a buffer just loaded from a file is reported as modified")
    for f, what in ((ctx.method("Buffer", "new"), "new"), (ctx.method("Buffer", "default", "Default"), "default")):
        if need(obs, f, "Buffer::" + what):
            I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
            for o in outs:
                if o[0] == "ret":
                    flag(ctx, obs, I, o[1], f, o[2], True, "new", "a buffer that was never in sync with a file is reported as unmodified")


def result(I, st, v):
    """[(state, payload or None for an error)] of a Result value"""
    v = deep_val(I, st, v)
    if v.op == "adt":
        return [(st, v.args[2] if v.args[1] == 0 else None)]
    out = []
    for i in (0, 1):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            out.append((s2, T("vf", v, 0, 0) if i == 0 else None))
    return out


def flag(ctx, obs, I, st, f, value, want, key, msg):
    st = st.copy()
    root = ("T", "flagged")
    st.store[root] = value
    flag_at(ctx, obs, I, st, f, T("ref", root), want, key, msg)


def flag_at(ctx, obs, I, st, f, ref, want, key, msg):
    m = ctx.method("Buffer", "modified")
    if m is None:
        return
    for q in I.run_body(st.copy(), m, [ref]):
        if q[0] != "ret":
            continue
        for s2, r in truth(q[1], I.val(q[1], q[2])):
            obs.decide(True if r == want else (None if s2.unk or fuzzy(s2) else False), "modified-after", where(f), msg, path_of(s2), key="modified-after-%s@%s" % (key, f["item"]))


def fuzzy(st):
    return any(taint(c) for c in st.pc)


def each(ctx, obs, I, st0, f, ref, outs, judge):
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        v0 = View(ctx, I, with_facts(st0, st), ref)
        if not v0.ok or v0.prev is None or v0.mark is None:
            obs.dunno("mark", where(f), "history not understood")
            continue
        sts = []
        if isinstance(v0.group_ops(), str):
            for i in (0, 1):
                s2 = st.copy()
                if s2.assume(T("isvar", v0.group, i)):
                    sts.append(s2)
        else:
            sts = [st]
        for s2 in sts:
            for s3, m0 in opt(I, s2, v0.mark):
                judge(ctx, obs, I, st0, f, ref, s3, m0)


def mark_is(obs, I, f, st, v1, want, msg):
    for s2, m in opt(I, st, v1.mark):
        if (m is None) != (want is None):
            r = None if s2.unk or fuzzy(s2) else False
        else:
            r = True if m is None else equal(I, s2, m, want)
        obs.decide(r, "mark", where(f), "%s, but it becomes %s" % (msg, "unset" if m is None else show(m)), path_of(s2), key="mark@" + f["item"])


def after_push(obs, I, f, st, v1, m0, depth):
    if m0 is None:
        mark_is(obs, I, f, st, v1, None, "no saved state was known, so none may be afterwards")
        return
    for s2, reach in truth(st, le(m0, depth)):
        if reach:
            mark_is(obs, I, f, s2, v1, m0, "the saved state can still be reached by undoing")
        else:
            mark_is(obs, I, f, s2, v1, None, "the saved state was discarded with the undone operations")


def recorded_mark(ctx, obs, I, st0, f, ref, st, m0):
    v0, v1 = View(ctx, I, with_facts(st0, st), ref), View(ctx, I, st, ref)
    ops = appended(I, st, v0.prev, v1.prev)
    if ops is None:
        obs.dunno("mark", where(f), "recorded operations not understood")
        return
    if len(ops) == 1:
        after_push(obs, I, f, st, v1, m0, I.seq_len(v0.prev))
    elif not ops:
        mark_is(obs, I, f, st, v1, m0, "nothing is added to the history, so the saved state stays the same")


def pending(ctx, I, v0, st):
    """[(state, whether an open group holds operations)]"""
    g = v0.group_ops()
    if g is None:
        return [(st, False)]
    return truth(st, lt(Z0, I.seq_len(g)))


def moved_mark(ctx, obs, I, st0, f, ref, st, m0):
    v0 = View(ctx, I, with_facts(st0, st), ref)
    for s2, pend in pending(ctx, I, v0, st):
        v1 = View(ctx, I, s2, ref)
        if pend:
            after_push(obs, I, f, s2, v1, m0, I.seq_len(v0.prev))
        else:
            mark_is(obs, I, f, s2, v1, m0, "%s does not change which state is the saved one" % f["item"])


def group_mark(ctx, obs, I, st0, f, ref, st, m0):
    v0 = View(ctx, I, with_facts(st0, st), ref)
    for s2, pend in pending(ctx, I, v0, st):
        v1 = View(ctx, I, s2, ref)
        if pend and f["item"].startswith("end"):
            after_push(obs, I, f, s2, v1, m0, I.seq_len(v0.prev))
        else:
            mark_is(obs, I, f, s2, v1, m0, "nothing is recorded, so the saved state stays the same")


def modified_is(ctx, obs):
    f = ctx.method("Buffer", "modified")
    if not need(obs, f, "Buffer::modified"):
        return
    I, st0, a, outs = run_buffer(ctx, obs, f)
    no_panic(obs, f, outs)

    def expected(st):
        return flag_spec(ctx, I, st0, a[0], st)
    check_bool(obs, I, f, outs, expected, "modified", "modified()")
    obs.ok("modified", where(f))


def flag_spec(ctx, I, st0, ref, st):
    v0 = View(ctx, I, with_facts(st0, st), ref)
    sts = [st]
    if isinstance(v0.group_ops(), str):
        sts = [s for s in (st.copy(), st.copy())]
        sts = [s for s, i in zip(sts, (0, 1)) if s.assume(T("isvar", v0.group, i))]
    out = []
    for s in sts:
        w = View(ctx, I, with_facts(st0, s), ref)
        for s2, pend in pending(ctx, I, w, s):
            if pend:
                out.append((s2, True))
                continue
            for s3, m in opt(I, s2, w.mark):
                if m is None:
                    out.append((s3, True))
                else:
                    for s4, at in truth(s3, ieq(m, I.seq_len(w.prev))):
                        out.append((s4, not at))
    return out


def same_flag(ctx, obs, I, st0, f, ref, st):
    m = ctx.method("Buffer", "modified")
    if m is None:
        return
    for q in I.run_body(st.copy(), m, [ref]):
        if q[0] != "ret":
            continue
        for s2, r in truth(q[1], I.val(q[1], q[2])):
            for s3, e in flag_spec(ctx, I, st0, ref, s2):
                obs.decide(True if r == e else (None if s3.unk or fuzzy(s3) else False), "group-keeps-flag", where(f), "%s changes whether the buffer counts as modified from %s to %s" % (f["item"], e, r), path_of(s3), key="group-keeps-flag@" + f["item"])


def saved(ctx, obs, I, st0, f, ref, st, v):
    for s2, ok in result(I, st, v):
        if ok is not None:
            flag_at(ctx, obs, I, s2, f, ref, False, "ok", "after a successful %s the buffer counts as modified" % f["item"])
        else:
            m = ctx.method("Buffer", "modified")
            if m is None:
                continue
            for q in I.run_body(s2.copy(), m, [ref]):
                if q[0] != "ret":
                    continue
                for s3, r in truth(q[1], I.val(q[1], q[2])):
                    for s4, e in flag_spec(ctx, I, st0, ref, s3):
                        obs.decide(True if r == e else (None if s4.unk or fuzzy(s4) else False), "failure-keeps-flag", where(f), "a failed %s changes whether the buffer counts as modified from %s to %s" % (f["item"], e, r), path_of(s4), key="failure-keeps-flag@" + f["item"])
