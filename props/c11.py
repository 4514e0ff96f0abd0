"""insert, delete, delete_range and replace are interpreted on an arbitrary buffer; on every path the text
afterwards is compared with the one required: spliced at the byte offset the cursor resolves to, cut
between the offsets of the range's ends (an end that does not exist stands for the start of the line after
it, or the end of the text), the new content, or the same text when the position does not exist. Inserting
and deleting do not move the cursor, rebind it or touch the buffer's identity."""
from .cur import *

ASSUMPTIONS = ["which offset a position resolves to is C12"]


def check(ctx, obs, tier):
    for f in edits(ctx, obs):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                one(ctx, obs, I, st0, f, a, o[1], o[2])


def resolve(I, st, t, p):
    return coff_cases(I, st, t, p[0], p[1])


def splice(I, st, t, x, y, mid):
    n = I.seq_len(t)
    st.facts.assume(le(x, y))
    return I.seq_cat(st, I.seq_slice(st, t, Z0, x), mid, I.seq_slice(st, t, y, n))


def cut(I, st, t, p, q):
    out = []
    for s2, x in resolve(I, st, t, p):
        if x is None:
            out.append((s2, t))
            continue
        for s3, y in resolve(I, s2, t, q):
            if y is not None:
                out.append((s3, splice(I, s3, t, x, y, T("nil"))))
                continue
            for s4, z in resolve(I, s3, t, (add(q[0], I1), Z0)):
                out.append((s4, splice(I, s4, t, x, z if z is not None else I.seq_len(t), T("nil"))))
    return out


def spec(ctx, I, st0, st, f, a, v0):
    name = f["item"]
    t, p = v0.text, v0.cpos
    if name == "insert":
        d = I.val(st, a[1])
        return [(s2, splice(I, s2, t, x, x, d) if x is not None else t) for s2, x in resolve(I, st, t, p)]
    if name == "replace":
        return [(st, I.val(st, a[1]))]
    if name == "delete":
        out = []
        q = (p[0], add(p[1], I1))
        for s2, y in resolve(I, st, t, q):
            out += cut(I, s2, t, p, q if y is not None else (add(p[0], I1), Z0))
        return out
    r = I.force(st, I.val(st0, a[1]))
    ps = range_ends(ctx, I, st, r)
    if ps is None:
        return None
    return [x for s2, p, q in ps for x in cut(I, s2, t, p, q)]


def range_ends(ctx, I, st, r):
    """[(state, start, end)] of a range, through its own accessors"""
    s, e = ctx.method("Range", "start"), ctx.method("Range", "end")
    if s is None or e is None:
        return None
    st = st.copy()
    root = ("T", "range")
    st.store[root] = r
    out = []
    for q in I.run_body(st, s, [T("ref", root)]):
        for z in I.run_body(q[1], e, [T("ref", root)]):
            if q[0] == z[0] == "ret":
                p1, p2 = position(I, z[1], q[2]), position(I, z[1], z[2])
                if p1 is None or p2 is None:
                    return None
                out.append((z[1], p1, p2))
    return out


def one(ctx, obs, I, st0, f, a, st, ret):
    name, wh = f["item"], where(f)
    v0, v1 = View(ctx, I, with_facts(st0, st), a[0]), View(ctx, I, st, a[0])
    if not v1.ok or v0.text is None or v1.text is None or v0.cpos is None:
        obs.dunno("effect", wh, "buffer not understood")
        return
    want = spec(ctx, I, st0, st, f, a, v0)
    if want is None:
        obs.dunno("effect", wh, "range not understood")
        return
    for s2, t in want:
        r = equal(I, s2, v1.text, t)
        obs.decide(None if r is False and (s2.unk or any(taint(c) for c in s2.pc)) else r, "effect", wh, "%s gives %s, %s is required" % (name, show(v1.text), show(t)), path_of(s2), key="effect@" + name)
    for n in ("id", "path", "syntax", "callback"):
        obs.decide(equal(I, st, getattr(v1, n), getattr(v0, n)), "frame", wh, "%s changes the buffer's %s" % (name, n), path_of(st), key="frame@" + name)
    obs.decide(True if v1.cdata is v1.data else (None if st.unk or taint(v1.cdata) else False), "shared-text", wh, "after %s the cursor is bound to another text" % name, path_of(st), key="shared-text@" + name)
    if name != "replace":
        r = equal(I, st, v1.cpos[0], v0.cpos[0]), equal(I, st, v1.cpos[1], v0.cpos[1])
        obs.decide(False if False in r else (None if None in r else True), "cursor-stays", wh, "%s moves the cursor to %s" % (name, show(v1.cpos)), path_of(st), key="cursor-stays@" + name)
