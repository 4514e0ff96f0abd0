"""undo and redo are interpreted on a buffer with arbitrary recorded operations (themselves opaque): with
the recorded list P (an open, non-empty group counts as its last element) and the undone list N, undo has
to reverse exactly the last of P and move it to the end of N, redo has to run exactly the last of N and
move it back, both do nothing when there is none, and neither touches anything else."""
from .buf import *

ASSUMPTIONS = ["what each recorded operation does when reversed or run is C02"]


def strip(v):
    n = 0
    while v.op in ("box", "unbox", "deref") and n < 8:
        v = v.args[0]
        n += 1
    return v


def check(ctx, obs, tier):
    for name in ("undo", "redo"):
        f = ctx.method("Buffer", name)
        if not need(obs, f, "Buffer::" + name):
            continue
        I = World(ctx, opaque_ops=True)
        I, st0, a, outs = analyse(ctx, obs, f, I, over=alias(ctx))
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                one(ctx, obs, I, st0, f, a[0], o[1], name)
    others(ctx, obs)


def sub_seq(I, st, s, a, b):
    try:
        return I.seq_slice(st, s, a, b)
    except Split:
        return T("unk", "slice")


def one(ctx, obs, I, st0, f, ref, st, name):
    v0 = View(ctx, I, with_facts(st0, st), ref)
    if not v0.ok or v0.text is None:
        obs.dunno("undo-redo", where(f), "buffer not understood")
        return
    g = v0.group_ops()
    sts = [(st, False)]
    if isinstance(g, str):
        # the path never looked whether a group is open
        sts = []
        for i in (0, 1):
            s2 = st.copy()
            if s2.assume(T("isvar", v0.group, i)):
                sts.append((s2, None))
    work = []
    for s2, _ in sts:
        w0 = View(ctx, I, with_facts(st0, s2), ref)
        g = w0.group_ops()
        if g is None:
            work.append((s2, w0, None))
        else:
            for s3, pending in truth(s2, lt(Z0, I.seq_len(g))):
                work.append((s3, View(ctx, I, with_facts(st0, s3), ref), g if pending else None))
    for s2, w0, pend in work:
        P, N = w0.prev, w0.next
        if pend is not None:
            P = I.seq_cat(s2, P, I.mkcat(s2, [T("el", T("box", w0.group.args[2]))]))
            N = T("nil")
        src = P if name == "undo" else N
        for s3, some in truth(s2, lt(Z0, I.seq_len(src))):
            judge(ctx, obs, I, View(ctx, I, with_facts(st0, s3), ref), View(ctx, I, s3, ref), s3, f, name, P, N, some)


def judge(ctx, obs, I, v0, v1, st, f, name, P, N, some):
    virt = [e for e in st.events if e.kind == "virtual" and e.method in ("run", "reverse")]
    loops = [e for e in st.events if e.kind == "loop"]
    meth = "reverse" if name == "undo" else "run"
    fuzzy = None if st.unk or loops else False
    wh = where(f)

    def dec(v, msg, key):
        obs.decide(v, "undo-redo", wh, msg, path_of(st), key=key + "@" + name)

    g1 = v1.group_ops()
    dec(True if g1 is None else (None if isinstance(g1, str) else fuzzy), "%s leaves an operation group open" % name, "group-closed")
    if not some:
        dec(True if not virt and fuzzy is False else fuzzy, "%s acts although there is nothing to %s" % (name, name), "nothing-to-do")
        dec(equal(I, st, v1.text, v0.text), "the text changes although there is nothing to " + name, "nothing-to-do")
        dec(equal(I, st, v1.prev, P), "recorded operations change although there is nothing to %s: %s" % (name, show(v1.prev)), "nothing-to-do")
        dec(equal(I, st, v1.next, N), "undone operations change although there is nothing to %s: %s" % (name, show(v1.next)), "nothing-to-do")
        dec(at(I, st, v1.cpos, v0.cpos), "the cursor moves although there is nothing to " + name, "nothing-to-do")
        return
    src = P if name == "undo" else N
    n = I.seq_len(src)
    last = sub_seq(I, st, src, sub(n, I1), n)
    rest = sub_seq(I, st, src, Z0, sub(n, I1))
    lp = I.seq_pieces(last)
    lv = lp[0].args[0] if lp and lp[0].op == "el" else (I.base_at(st, lp[0].args[0], lp[0].args[1]) if len(lp) == 1 else T("unk", "last"))
    if len(virt) != 1:
        dec(fuzzy, "%s applies %d operations instead of the last one" % (name, len(virt)), "applies-last")
        return
    e = virt[0]
    dec(e.method == meth or fuzzy, "%s calls %s on the operation" % (name, e.method), "applies-last")
    dec(same_op(I, st, e.recv, lv), "%s applies %s, which is not the last operation" % (name, show(e.recv)), "applies-last")
    dec(not e.borrows or fuzzy, "an operation is applied while the text is borrowed", "borrowed")
    want = (rest, I.seq_cat(st, N, last)) if name == "undo" else (I.seq_cat(st, P, last), rest)
    dec(same_ops(I, st, v1.prev, want[0]), "afterwards the recorded operations are %s, %s is required" % (show(v1.prev), show(want[0])), "recorded")
    dec(same_ops(I, st, v1.next, want[1]), "afterwards the undone operations are %s, %s is required" % (show(v1.next), show(want[1])), "undone")
    dec(equal(I, st, v1.text, app("op:" + meth, e.recv, v0.text)), "the text is changed by more than the operation", "text")
    dec(at(I, st, v1.cpos, position(I, st, e.d["moved"]) if "moved" in e.d else None), "%s moves the cursor beyond what the operation does" % name, "cursor")
    for n_ in ("id", "path", "syntax", "callback"):
        dec(equal(I, st, getattr(v1, n_), getattr(v0, n_)), "%s changes the buffer's %s" % (name, n_), "frame")


def at(I, st, p, q):
    """is cursor position p the same as q?"""
    if p is None or q is None:
        return None
    vs = [equal(I, st, x, y) for x, y in zip(p, q)]
    return False if False in vs else None if None in vs else True


def same_op(I, st, a, b):
    x, y = strip(I.force(st, a)), strip(I.force(st, b))
    return equal(I, st, x, y)


def same_ops(I, st, a, b):
    def flat(s):
        ps = []
        for p in I.seq_pieces(s):
            if p.op == "el":
                ps.append(T("el", strip(I.force(st, p.args[0]))))
            elif p.op == "sl" and I.piece_len(p) is I1:
                ps.append(T("el", strip(I.force(st, I.base_at(st, p.args[0], p.args[1])))))
            else:
                ps.append(p)
        return ps
    x, y = flat(a), flat(b)
    if len(x) == len(y):
        ok = True
        for p, q in zip(x, y):
            if p.op == "el" and q.op == "el":
                ok = ok and equal(I, st, p.args[0], q.args[0]) is True
            else:
                ok = ok and p.op == q.op == "sl" and p.args[0] is q.args[0] and all(st.facts.entails_eq0(sub(u, v)) for u, v in zip(p.args[1:], q.args[1:]))
        if ok:
            return True
    v = equal(I, st, a, b)
    if v is not None:
        return v
    return None


# -- everything else leaves both lists alone --------------------------------------------------------------------


def others(ctx, obs):
    for name in ("start_operation_group", "end_operation_group", "save", "reload"):
        f = ctx.method("Buffer", name)
        if not need(obs, f, "Buffer::" + name):
            continue
        I, st0, a, outs = run_buffer(ctx, obs, f)
        for o in outs:
            if o[0] == "ret":
                for st, opened, held in group_cases(ctx, I, st0, a[0], o[1]):
                    kept(ctx, obs, I, st0, f, a[0], st, name, opened, held)
    for f, what in ((ctx.method("Buffer", "new"), "new"), (ctx.method("Buffer", "default", "Default"), "default"), (ctx.method("Buffer", "from_file"), "from_file")):
        if need(obs, f, "Buffer::" + what):
            I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
            for o in outs:
                if o[0] == "ret":
                    fresh(ctx, obs, I, f, o[1], o[2])


def group_cases(ctx, I, st0, ref, st):
    """[(state, group open at entry?, with operations?)]"""
    v0 = View(ctx, I, with_facts(st0, st), ref)
    if not v0.ok or v0.prev is None:
        return [(st, None, None)]
    sts = [st]
    if isinstance(v0.group_ops(), str):
        sts = [s for s in (st.copy(), st.copy())]
        sts = [s for s, i in zip(sts, (0, 1)) if s.assume(T("isvar", v0.group, i))]
    out = []
    for s in sts:
        g = View(ctx, I, with_facts(st0, s), ref).group_ops()
        if g is None:
            out.append((s, False, False))
        elif isinstance(g, str):
            out.append((s, None, None))
        else:
            out += [(s2, True, p) for s2, p in truth(s, lt(Z0, I.seq_len(g)))]
    return out


def kept(ctx, obs, I, st0, f, ref, st, name, opened, held):
    v0, v1 = View(ctx, I, with_facts(st0, st), ref), View(ctx, I, st, ref)
    if opened is None or not v1.ok or v1.prev is None:
        obs.dunno("steps-kept", where(f), "history or group not understood")
        return
    g0, g1 = v0.group_ops(), v1.group_ops()
    if g1 == "unknown" or isinstance(g1, str):
        g1 = g0 if equal(I, st, v0.group, v1.group) is True else g1
    unsure = st.unk or any(taint(x) for x in (v1.prev, v1.next, v1.group)) or isinstance(g1, str)
    n = [0]

    def dec(r, msg, key):
        n[0] += 1
        obs.decide(None if r is False and unsure else r, "steps-kept", where(f), msg, path_of(st), key=key + "@" + name)

    want = True if name.startswith("start") else False if name.startswith("end") else opened
    dec((g1 is not None) == want, "%s leaves an operation group %s that was %s" % (name, "open" if g1 is not None else "closed", "open" if opened else "closed"), "group-open")
    added = appended(I, st, v0.prev, v1.prev)
    if added is None:
        dec(False, "what can be undone is not what could be undone before%s: %s" % ("" if name.startswith("start") else " plus what was pending", show(v1.prev)), "undoable")
        return
    if name == "reload":
        most = 1
    else:
        most = 1 if held and name != "start_operation_group" else 0
    dec(len(added) <= most, "%s makes %d new steps" % (name, len(added)), "undoable")
    if not added:
        dec(equal(I, st, v1.next, v0.next), "%s changes what can be redone: %s" % (name, show(v1.next)), "redoable")
    else:
        dec(equal(I, st, v1.next, T("nil")), "steps that could be redone survive a new step: %s" % show(v1.next), "redoable")
    if isinstance(g1, str):
        return
    if g0 is None or added:
        base = T("nil")
    else:
        base = g0
    if g1 is None:
        if held:
            dec(len(added) == 1, "%s loses the operations of the open group" % name, "pending")
    else:
        more = appended(I, st, base, g1)
        dec(more is not None and len(more) <= (1 if name == "reload" and not added else 0), "%s leaves the open group with %s" % (name, show(g1)), "pending")
    if held and added:
        x = strip(I.force(st, added[0]))
        tid = ctx.adt("OperationGroup")
        i = ctx.field_by(tid, lambda n_, t: t.get("path") == "std::vec::Vec")
        if not i:
            obs.dunno("steps-kept", where(f), "the operations of a group are not understood")
        elif x.op == "with" or x.op == "adt" and x.args[0] == ctx.types[tid].get("path"):
            more = appended(I, st, g0, I.project(st, x, ("f", i[0])))
            dec(more is not None and len(more) <= (1 if name == "reload" else 0), "the step made from the open group holds other operations than the group", "pending")
        else:
            r = equal(I, st, x, strip(v0.group.args[2])) if v0.group.op == "adt" and len(v0.group.args) > 2 else None
            dec(r, "the step made is not the open group but %s" % show(x), "pending")


def fresh(ctx, obs, I, f, st, v):
    v = deep_val(I, st, v)
    if f["item"] == "from_file":
        if v.op == "adt":
            if v.args[1] != 0:
                return
            v = v.args[2]
        else:
            obs.dunno("steps-kept", where(f), "result not understood")
            return
    st = st.copy()
    root = ("T", "fresh")
    st.store[root] = v
    w = View(ctx, I, st, T("ref", root))
    if not w.ok or w.prev is None:
        obs.dunno("steps-kept", where(f), "history not understood")
        return
    for s, what in ((w.prev, "undo"), (w.next, "redo")):
        r = equal(I, st, s, T("nil"))
        obs.decide(None if r is False and taint(s) else r, "steps-kept", where(f), "a fresh buffer has something to %s: %s" % (what, show(s)), path_of(st), key="fresh@" + f["item"])
    g = w.group_ops()
    obs.decide(True if g is None else None if isinstance(g, str) else False, "steps-kept", where(f), "a fresh buffer has an operation group open", path_of(st), key="fresh@" + f["item"])
