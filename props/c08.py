"""Every cursor movement is interpreted on an arbitrary cursor over an arbitrary text: on every path the
position afterwards is either the old one or one that the text was found to contain, and the text itself
and the cursor's hold on it stay the same."""
from .cur import *

ASSUMPTIONS = ["which positions a text contains is C12"]


def check(ctx, obs, tier):
    found = [f for f in ctx.methods("Cursor") if f.get("impl_trait") is None and f.get("pub") and f["item"] != "new" and f["argc"] and ctx.types[f["locals"][1][0]].get("mut")]
    names = {f["item"] for f in found}
    for m in MOVES:
        if m not in names:
            obs.dunno("anchor", "Cursor::" + m, "function not found")
    for f in found:
        I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                one(ctx, obs, I, st0, f, a[0], o[1])


def one(ctx, obs, I, st0, f, ref, st):
    c0, c1 = Cur(ctx, I, with_facts(st0, st), ref), Cur(ctx, I, st, ref)
    wh = where(f)
    if not c0.ok or not c1.ok or c0.text is None or c1.pos is None:
        obs.dunno("bounded", wh, "cursor not understood")
        return
    obs.decide(equal(I, st, c1.data, c0.data), "same-text", wh, "%s binds the cursor to another text" % f["item"], path_of(st), key="same-text@" + f["item"])
    obs.decide(equal(I, st, c1.text, c0.text), "same-text", wh, "%s changes the text to %s" % (f["item"], show(c1.text)), path_of(st), key="same-text@" + f["item"])
    if same_pos(I, st, c0.pos, c1.pos) is True:
        obs.ok("bounded", wh)
        return
    for s2, inb in in_bounds(I, st, c0.text, c1.pos):
        soft = None if s2.unk or taint(c1.pos) else False
        obs.decide(True if inb else soft, "bounded", wh, "%s moves the cursor to %s, which was not found to be in bounds" % (f["item"], show(c1.pos)), path_of(s2), key="bounded@" + f["item"])
