"""The operation that each public edit records is interpreted, on every path: reversing it on the edited
buffer has to give back the original text byte for byte, running it again the edited text, and so on;
its copy has to be equal to it. Groups have to run their operations first to last and reverse them last
to first, each once. Running or reversing touches the text and the cursor only, never what is recorded."""
from .buf import *

ASSUMPTIONS = ["the gap buffer meets its contract (C10, C11, C12)", "a position resolves to the same offset in equal texts"]


def check(ctx, obs, tier):
    for f in edits(ctx, obs):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        for o in outs:
            if o[0] != "ret":
                continue
            v0, v1 = View(ctx, I, with_facts(st0, o[1]), a[0]), View(ctx, I, o[1], a[0])
            if not v1.ok or v0.text is None or v1.text is None:
                obs.dunno("reversible", where(f), "buffer not understood")
                continue
            r = recorded(v0, v1)
            if r is None or len(r[1]) > 1:
                obs.dunno("reversible", where(f), "recorded operations not understood")
                continue
            if not r[1]:
                if equal(I, o[1], v0.text, v1.text) is True:
                    obs.ok("unchanged", where(f))
                else:
                    obs.decide(None if o[1].unk else False, "reversible", where(f), "the text changes and nothing is recorded that could undo it", path_of(o[1]), key="reversible@" + f["item"])
                continue
            undo_redo(ctx, obs, I, o[1], f, a[0], r[1][0], v0.text, v1.text, f["item"])
    groups(ctx, obs)
    frames(ctx, obs)


def impls(ctx, name):
    return [f for f in ctx.local if f.get("root") and f.get("item") == name and (f.get("impl_trait") or "").split("<")[0].endswith("operation::Operation")]


def frames(ctx, obs):
    for name in ("run", "reverse"):
        fs = impls(ctx, name)
        if len(fs) < 4:
            obs.dunno("anchor", "Operation::" + name, "%d implementations" % len(fs))
        for f in fs:
            pre = f["locals"][2][1] or "arg2"
            I, st0, a, outs = run_buffer(ctx, obs, f, pre=pre)
            for o in outs:
                if o[0] != "ret":
                    continue
                v0, v1 = View(ctx, I, with_facts(st0, o[1]), a[1]), View(ctx, I, o[1], a[1])
                for n in ("hist", "group", "id", "path", "syntax", "callback"):
                    e = equal(I, o[1], getattr(v0, n), getattr(v1, n))
                    obs.decide(e, "frame", where(f), "an operation changes the buffer's %s: %s" % (n, show(getattr(v1, n))), path_of(o[1]), key="frame@%s@%s" % (n, canon(f["name"])))


def element_index(ops, recv):
    """recv is the operation at which index of the sequence? an integer term or None"""
    n = 0
    while recv.op in ("unbox", "deref", "box") and n < 5:
        recv = recv.args[0]
        n += 1
    if recv.op == "at" and recv.args[0] is ops:
        return recv.args[1]
    return None


def groups(ctx, obs):
    for name, up in (("run", True), ("reverse", False)):
        f = ctx.method("OperationGroup", name, "Operation")
        if not need(obs, f, "OperationGroup::" + name):
            continue
        pre = f["locals"][2][1] or "arg2"
        I, st0, a, outs = run_buffer(ctx, obs, f, pre=pre)
        no_panic(obs, f, outs)
        g = I.val(st0, a[0])
        tid = ctx.adt("OperationGroup")
        i = ctx.field_by(tid, lambda n, t: t.get("path") == "std::vec::Vec")
        ops = I.project(st0, g, ("f", i[0]))
        n = I.seq_len(ops)
        for o in outs:
            if o[0] == "ret":
                v, why = order(I, st0, o[1], ops, n, name, up)
                obs.decide(v, "group-order", where(f), why, path_of(o[1]), key="group-order@" + name)
    f = ctx.method("OperationGroup", "clone_operation", "Operation")
    if need(obs, f, "OperationGroup::clone_operation"):
        I = world(ctx)
        I, st0, a, outs = analyse(ctx, obs, f, I)
        g = I.val(st0, a[0])
        ops = I.project(st0, g, ("f", i[0]))
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            c = I.val(st, o[2])
            cops = I.project(st, c, ("f", i[0])) if c.op == "adt" else T("unk", "group")
            obs.decide(copies(I, st, ops, cops), "faithful-copy", where(f), "the copy of a group holds %s instead of a copy of each of its operations in order" % show(cops), path_of(st), key="faithful-copy@group")


def copies(I, st, ops, cops):
    if equal(I, st, ops, cops) is True:
        return True
    if cops.op == "comp":
        body, lo, a, b = cops.args[0], cops.args[1], cops.args[2], cops.args[3]
        n = 0
        while body.op in ("box", "unbox") and n < 6:
            body = body.args[0]
            n += 1
        full = st.facts.entails_eq0(a) and st.facts.entails_eq0(sub(b, I.seq_len(ops)))
        if body is T("at", ops, T("bv")) and full:
            return True
    if taint(cops) or st.unk:
        return None
    return False


def order(I, st0, st, ops, n, name, up):
    """were all operations of the sequence run once each, upwards or downwards?"""
    loops = [e for e in st.events if e.kind == "loop"]
    virt = [e for e in st.events if e.kind == "virtual" and e.method in ("run", "reverse")]
    if not loops:
        if st.facts.entails_eq0(n) and not virt:
            return True, ""
        if virt or st.unk:
            return None, "operations run outside a loop"
        return (False if not st.unk else None), "returns without touching the group's operations"
    if len(loops) != 1 or virt:
        return None, "several loops"
    info = loops[0].info
    if "index" not in info:
        return None, "no loop index"
    k, k0, step = info["index"]
    end = info.get("end")
    idx = set()
    for t in info["transitions"]:
        es = [e for e in t["events"] if e.kind == "virtual" and e.method in ("run", "reverse")]
        if len(es) != 1:
            return (None if t["state"].unk else False), "an iteration runs %d operations" % len(es)
        if es[0].method != name:
            return False, "%s calls %s on the group's operations" % (name, es[0].method)
        j = element_index(ops, es[0].recv)
        if j is None:
            return None, "operation not understood: " + show(es[0].recv)
        idx.add(j)
    if len(idx) != 1:
        return None, "several operations per iteration"
    j = next(iter(idx))
    c, p = parts(j)
    co = p.get(k)
    if co not in (1, -1) or end is None:
        return None, "loop bounds not understood"
    s2 = st.copy()
    if not s2.assume(le(T("int", 1), n)):
        return True, ""
    first, last = subst(j, {k: k0}), subst(j, {k: sub(end, T("int", step))})
    want = (T("int", 0), sub(n, T("int", 1)))
    if not up:
        want = want[::-1]
    for got, w, which in ((first, want[0], "first"), (last, want[1], "last")):
        if not s2.facts.entails_eq0(sub(got, w)):
            if taint(got):
                return None, "loop bounds not understood"
            return False, "%s visits index %s %s, index %s is required" % (name, show(got), which, show(w))
    return True, ""
