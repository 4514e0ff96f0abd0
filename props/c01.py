"""Every public edit of a buffer (insert, delete, delete_range, replace) is interpreted on an arbitrary
buffer. On each path that changes the text, exactly one operation has to be appended to the open group
(or else to the history, dropping what could be redone); paths that do not change it may record at most one. """
from .buf import *

ASSUMPTIONS = ["the gap buffer meets its contract (C10, C11, C12)", "insertions and deletions resolve a position to the same offset in equal texts"]


def check(ctx, obs, tier):
    for f in edits(ctx, obs):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                one(ctx, obs, I, st0, f, a, o[1])


def one(ctx, obs, I, st0, f, a, st):
    name = f["item"]
    v0, v1 = View(ctx, I, st0, a[0]), View(ctx, I, st, a[0])
    if not v1.ok or v0.text is None or v1.text is None:
        obs.dunno("recorded-once", where(f), "buffer not understood")
        return
    same = equal(I, st, v0.text, v1.text)
    r = recorded(View(ctx, I, with_facts(st0, st), a[0]), v1)
    if r is None:
        bad = None if st.unk or taint(v1.prev) or taint(v1.group) else False
        obs.decide(bad, "recorded-once", where(f), "the recorded operations are not the previous ones plus one: history %s, group %s" % (show(v1.prev), show(v1.group)), path_of(st), key="recorded-once@" + name)
        return
    kind, ops = r
    if same is True and not ops:
        obs.ok("recorded-once", where(f))
        obs.ok("unchanged", where(f))
        return
    if len(ops) != 1:
        v = None if st.unk else False
        obs.decide(v, "recorded-once", where(f), "%d operations are recorded (in the %s) on a path that changes the text" % (len(ops), kind), path_of(st), key="recorded-once@" + name)
        return
    obs.ok("recorded-once", where(f))
    if kind == "history":
        e = equal(I, st, v1.next, T("nil"))
        obs.decide(e, "redo-dropped", where(f), "operations that could be redone survive a new edit: %s" % show(v1.next), path_of(st), key="redo-dropped@" + name)
