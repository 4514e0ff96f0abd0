"""Every function that works on a buffer, a cursor or a workspace, and every operation, is interpreted with
the run-time borrow state of the shared text tracked: a path that borrows the text while an incompatible
borrow is live is a violation, as is one that returns or calls the user's callback or another operation
with a borrow still live."""
from .buf import *

ASSUMPTIONS = ["the shared text is not reached from outside through the cursor's public handle while a method runs"]
TYPES = ("Buffer", "Cursor", "Workspace", "Insert", "Delete", "Replace", "OperationGroup", "TokenSet")


def subjects(ctx):
    out = []
    for f in ctx.local:
        if not f.get("root") or f.get("item") in ("fmt", "clone", "eq", "drop"):
            continue
        tn = ctx.self_path(f).split("::")[-1]
        if tn in TYPES or (f.get("impl_trait") or "").endswith("operation::Operation"):
            out.append(f)
    return out


def check(ctx, obs, tier):
    fs = subjects(ctx)
    names = {(ctx.self_path(f).split("::")[-1], f["item"]) for f in fs}
    for want in (("Buffer", "insert"), ("Buffer", "undo"), ("Buffer", "replace"), ("Cursor", "move_down"), ("Cursor", "move_to_last_line"), ("Workspace", "current_buffer_tokens")):
        if want not in names:
            obs.dunno("anchor", "%s::%s" % want, "function not found")
    for f in fs:
        one(ctx, obs, f)


def one(ctx, obs, f):
    over = {}
    I0 = World(ctx)
    for i in range(f["argc"]):
        tid, name = f["locals"][i + 1]
        t = ctx.types[I0.strip_refs(tid)]
        p = t.get("path", "").split("::")[-1]
        if p == "Buffer":
            over.update(alias(ctx, name or "arg%d" % (i + 1)))
    I = World(ctx, opaque_ops=f["item"] in ("undo", "redo"))
    try:
        I, st0, a, outs = analyse(ctx, obs, f, I, over=over)
    except Budget as e:
        obs.dunno("borrow", where(f), "analysis gave up: %s" % e)
        return
    n = 0
    for o in outs:
        st = o[1]
        soft = None if st.unk else False
        if o[0] == "panic":
            if "borrow" in str(o[2]).lower():
                n += 1
                obs.decide(soft, "no-double-borrow", where(f), "the text is borrowed while it is already borrowed, at %s" % st.where[1], path_of(st), key="double-borrow@" + canon(f["name"]))
            continue
        if st.borrows and not holds_guard(I, st, o[2]):
            obs.decide(soft, "released", where(f), "a borrow of the text outlives the call: %s" % st.borrows, path_of(st), key="released@" + canon(f["name"]))
        else:
            obs.ok("released", where(f))
        for e in st.events:
            if e.kind in ("callback", "virtual") and getattr(e, "borrows", None):
                obs.decide(soft, "foreign-call", where(f), "the text is borrowed while %s is called" % ("the callback" if e.kind == "callback" else "an operation"), path_of(st), key="foreign-call@" + canon(f["name"]))
            elif e.kind in ("callback", "virtual"):
                obs.ok("foreign-call", where(f))
            elif e.kind == "borrow":
                obs.ok("borrow-compatible", where(f))
        if st.unk:
            obs.dunno("borrow", where(f), "; ".join(sorted(set(map(str, st.unk)))[:3]))
    if not n:
        obs.ok("no-double-borrow", where(f))


def holds_guard(I, st, v):
    return contains(I.val(st, v), lambda t: t.op == "guard")
