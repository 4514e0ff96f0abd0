"""Every public edit, and the reversal and re-run of the operation it recorded, is interpreted on an
arbitrary buffer. On each path that changes the text and with a callback set, the callback has to be
called exactly once, after the change, with the position of the operation, with nothing borrowed and with
the buffer already holding the new text; otherwise at most once. The callback itself stays in place."""
from .buf import *

ASSUMPTIONS = ["the callback does not modify the buffer (it has no access to it through the crate)"]


def strip(v):
    n = 0
    while v.op in ("box", "unbox", "deref", "vref") and n < 8:
        v = v.args[0]
        n += 1
    return v


def check(ctx, obs, tier):
    for f in edits(ctx, obs):
        I = world(ctx)
        ref = []
        I.snapshot = lambda st: (View(ctx, I, st, ref[0]).text if ref else None)

        def setup(I_, st, a):
            ref.append(a[0])
        I, st0, a, outs = analyse(ctx, obs, f, I, over=alias(ctx), setup=setup)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            v0, v1 = View(ctx, I, with_facts(st0, st), a[0]), View(ctx, I, st, a[0])
            if not v1.ok or v0.text is None or v1.text is None:
                obs.dunno("callback", where(f), "buffer not understood")
                continue
            want = expected(ctx, I, st, st0, f, a, v0)
            judge(ctx, obs, I, f, f["item"], v0, v1, st, want)
            r = recorded(v0, v1)
            if r and len(r[1]) == 1:
                again(ctx, obs, I, st, f, a[0], r[1][0], want)
    composites(ctx, obs)


def composites(ctx, obs):
    """undo, redo and groups leave the calls to the operations they apply: each is applied with the
    callback in place, and they call nothing themselves"""
    fs = [(ctx.method("Buffer", n), "Buffer::" + n, 0) for n in ("undo", "redo", "start_operation_group", "end_operation_group")]
    fs += [(ctx.method("OperationGroup", n, "Operation"), "OperationGroup::" + n, 1) for n in ("run", "reverse")]
    for f, nm, at in fs:
        if not need(obs, f, nm):
            continue
        I = World(ctx, opaque_ops=True)
        pre = "self" if at == 0 else (f["locals"][2][1] or "arg2")
        I, st0, a, outs = analyse(ctx, obs, f, I, over=alias(ctx, pre))
        fi = (ctx.layout_buffer() or {}).get("callback")
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            v0, v1 = View(ctx, I, with_facts(st0, st), a[at]), View(ctx, I, st, a[at])

            def dec(r, msg, key):
                obs.decide(r, "callback", where(f), msg, path_of(st), key=key + "@" + f["item"])
            dec(equal(I, st, v1.callback, v0.callback), "%s changes which callback is set" % nm, "callback-kept")
            for evs, s2 in [(st.events, st)] + [(t["events"], t["state"]) for e in st.events if e.kind == "loop" for t in (getattr(e, "info", None) or {}).get("transitions", [])]:
                own = [e for e in evs if e.kind == "callback"]
                dec(True if not own else (None if s2.unk else False), "%s calls the callback itself, in addition to the operations it applies" % nm, "own-calls")
                for e in evs:
                    if e.kind == "virtual" and e.method in ("run", "reverse"):
                        b = getattr(e, "buf", None)
                        if b is None or b.op != "adt" or fi is None:
                            dec(None, "buffer not understood when an operation is applied", "callback-there")
                            continue
                        c = I.force(s2, I.project(s2, b, ("f", fi)))
                        dec(equal(I, s2, c, v0.callback), "when %s applies an operation the buffer's callback is %s" % (nm, show(c)), "callback-there")


def expected(ctx, I, st, st0, f, a, v0):
    """the position of an edit"""
    name = f["item"]
    if name == "replace":
        return (Z0, Z0)
    if name == "delete_range":
        r = I.force(st, I.val(st0, a[1]))
        if r.op == "adt" and len(r.args) == 4:
            return position(I, st, r.args[2])
        g = ctx.method("Range", "start")
        return None
    return v0.cpos


def in_loop(e, depth=0):
    """whether something may be called from within a loop, so that how often is not known"""
    ts = (e.d.get("info") or {}).get("transitions", ())
    return any(x.kind == "callback" or depth < 4 and x.kind in ("loop", "loopend") and in_loop(x, depth + 1) for t in ts for x in t["events"])


def judge(ctx, obs, I, f, what, v0, v1, st, want):
    calls = [e for e in st.events if e.kind == "callback"]
    loops = [e for e in st.events if e.kind in ("loop", "loopend") and in_loop(e)]
    soft = None if st.unk or loops else False

    def dec(r, msg, key):
        obs.decide(r, "callback", where(f), msg, path_of(st), key=key + "@" + what)
    dec(equal(I, st, v1.callback, v0.callback), "%s changes which callback is set" % what, "callback-kept")
    same = equal(I, st, v0.text, v1.text)
    if v0.callback.op == "adt":
        sts = [(st, v0.callback.args[2] if v0.callback.args[1] == 1 else None)]
    else:
        sts = opt(I, st, v0.callback)
    for s2, cb in sts:
        if cb is None:
            dec(True if not calls else soft, "something is called although no callback is set", "called")
            continue
        if not calls:
            dec(True if same is True else (None if same is None else soft), "%s changes the text without calling the callback" % what, "called")
            continue
        if len(calls) > 1:
            dec(soft, "%s calls the callback %d times" % (what, len(calls)), "called")
            continue
        dec(True, "", "called")
        e = calls[0]
        dec(equal(I, s2, strip(e.callee), strip(I.force(s2, cb))), "%s calls %s, not the buffer's callback" % (what, show(e.callee)), "callee")
        dec(True if not e.borrows else soft, "%s calls the callback while the text is borrowed: %s" % (what, e.borrows), "borrowed")
        p = position(I, s2, e.args[0]) if e.args else None
        if p is None or want is None:
            dec(None, "position not understood: %s" % (show(e.args)), "position")
        else:
            ok = [holds(I, s2, ieq(p[0], want[0])), holds(I, s2, ieq(p[1], want[1]))]
            dec(False if False in ok else (None if None in ok else True), "%s reports position %s, it is at %s" % (what, show(p), show(want)), "position")
        if e.snap is None:
            dec(None, "text at the callback not understood", "updated")
        else:
            dec(equal(I, s2, e.snap, v1.text), "when the callback is called the buffer holds %s, not the new text" % show(e.snap), "updated")


def again(ctx, obs, I, st, f, ref, op, want):
    rev, val = op_method(ctx, op, "reverse")
    run, _ = op_method(ctx, op, "run")
    if rev is None or run is None:
        obs.dunno("callback", where(f), "recorded operation not understood: " + show(op))
        return
    st = st.copy()
    root = ("T", "recorded")
    st.store[root] = val
    for q in run_op(ctx, I, st, rev, T("ref", root), ref):
        if q[0] != "ret":
            continue
        judge(ctx, obs, I, rev, "undoing " + f["item"], View(ctx, I, with_facts(st, q[1]), ref), View(ctx, I, q[1], ref), q[1], want)
        for z in run_op(ctx, I, q[1], run, T("ref", root), ref):
            if z[0] == "ret":
                judge(ctx, obs, I, run, "redoing " + f["item"], View(ctx, I, with_facts(q[1], z[1]), ref), View(ctx, I, z[1], ref), z[1], want)
