"""Every cursor movement is interpreted on an arbitrary cursor over an arbitrary text, and the position, the
remembered column and the result on every path are compared with where the movement has to lead, computed
from the text (its lines, their numbers of grapheme clusters). Replacing a buffer's content has to keep the
position, else the line, else reset to the start, with buffer and cursor sharing the new text."""
from .cur import *

ASSUMPTIONS = ["which positions a text contains is C12"]


def eol(I, st, text, line):
    """[(state, offset)]: the end of a line as vertical movement falls back to"""
    out = []
    for s2, inside in truth(st, lt(line, I.seq_len(lines_of(text)))):
        out.append((s2, I.seq_len(graphemes_of(I.base_at(s2, lines_of(text), line))) if inside else Z0))
    return out


def gated(I, st, c, target, sticky):
    """[(state, position, sticky, moved)]"""
    out = []
    for s2, ok in in_bounds(I, st, c.text, target):
        out.append((s2, target, sticky if sticky is not None else target[1], True) if ok else (s2, c.pos, c.sticky, False))
    return out


def vertical(I, st, c, line):
    out = []
    for s2, ok in in_bounds(I, st, c.text, (line, c.sticky)):
        if ok:
            out.append((s2, (line, c.sticky), c.sticky, True))
            continue
        for s3, e in eol(I, s2, c.text, line):
            for s4, p, k, m in gated(I, s3, c, (line, e), c.sticky):
                out.append((s4, p, c.sticky, m))
    return out


def clipped(I, st, c, line, width):
    out = []
    for s2, fits in truth(st, le(c.sticky, width)):
        t = (line, c.sticky if fits else width)
        for s3, p, k, m in gated(I, s2, c, t, None):
            out.append((s3, p, None, m))
    return out


def spec(name, I, st, c, arg):
    """[(state, position, sticky or None, moved)] that a movement has to lead to"""
    l, o = c.pos
    if name == "move_to":
        return gated(I, st, c, arg, None)
    if name == "move_left":
        return [x for s2, z in truth(st, ieq(o, Z0)) for x in ([(s2, c.pos, c.sticky, False)] if z else gated(I, s2, c, (l, sub(o, I1)), None))]
    if name == "move_right":
        return gated(I, st, c, (l, add(o, I1)), None)
    if name == "move_up":
        return [x for s2, z in truth(st, ieq(l, Z0)) for x in ([(s2, c.pos, c.sticky, False)] if z else vertical(I, s2, c, sub(l, I1)))]
    if name == "move_down":
        return vertical(I, st, c, add(l, I1))
    if name == "move_to_start_of_line":
        return gated(I, st, c, (l, Z0), None)
    lines = lines_of(c.text)
    if name == "move_to_end_of_line":
        return [x for s2, z in truth(st, lt(l, I.seq_len(lines))) for x in (gated(I, s2, c, (l, I.seq_len(graphemes_of(I.base_at(s2, lines, l)))), None) if z else empty_line(I, s2, c, l))]
    if name == "move_to_first_line":
        return [x for s2, z in truth(st, lt(Z0, I.seq_len(lines))) for x in clipped(I, s2, c, Z0, I.seq_len(graphemes_of(I.base_at(s2, lines, Z0))) if z else Z0)]
    if name == "move_to_last_line":
        nl = T("str", "\n")
        return clipped(I, st, c, T("occ", c.text, nl), I.seq_len(graphemes_of(T("lastseg", c.text, nl))))
    return None


def empty_line(I, st, c, l):
    # a line after the last line break, or none at all: the end of line is where the cursor is at 0
    return [(st, c.pos, c.sticky, "either")]


def check(ctx, obs, tier):
    for m in MOVES:
        f = ctx.method("Cursor", m)
        if not need(obs, f, "Cursor::" + m):
            continue
        I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
        for o in outs:
            if o[0] == "ret":
                one(ctx, obs, I, st0, f, a, o[1], o[2])
    replace(ctx, obs)
    made(ctx, obs)


def made(ctx, obs):
    """new cursors, copies, and the position a cursor stands for"""
    for name, tr in (("new", None), ("clone", "Clone"), ("deref", "Deref")):
        f = ctx.method("Cursor", name, tr) if tr else ctx.method("Cursor", name)
        if f is None:
            if name != "clone":
                obs.dunno("anchor", "Cursor::" + name, "function not found")
            continue
        I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            if name == "deref":
                c = Cur(ctx, I, st, a[0])
                p = position(I, st, o[2])
                obs.decide(same_pos(I, st, p, c.pos) if p and c.ok else None, "made", where(f), "a cursor stands for %s, not its position" % show(p), path_of(st), key="made@deref")
                continue
            root = ("T", I.uid())
            st.store[root] = o[2]
            c = Cur(ctx, I, st, T("ref", root))
            if name == "new":
                pos = position(I, st0, a[1])
                data, sticky = a[0], pos[1]
            else:
                b = Cur(ctx, I, st, a[0])
                pos, data, sticky = b.pos, b.data, b.sticky
            if not c.ok or c.pos is None or pos is None:
                obs.dunno("made", where(f), "cursor not understood")
                continue
            obs.decide(same_pos(I, st, c.pos, pos), "made", where(f), "the cursor made is at %s, not at %s" % (show(c.pos), show(pos)), path_of(st), key="made-position@" + name)
            obs.decide(equal(I, st, c.sticky, sticky), "made", where(f), "the cursor made remembers column %s, not %s" % (show(c.sticky), show(sticky)), path_of(st), key="made-column@" + name)
            obs.decide(True if c.data is I.val(st, data) or c.data is data else None, "made", where(f), "the cursor made is bound to %s, not %s" % (show(c.data), show(data)), path_of(st), key="made-data@" + name)


def one(ctx, obs, I, st0, f, a, st, ret):
    name = f["item"]
    wh = where(f)
    arg = position(I, st, a[1]) if len(a) > 1 else None
    c0 = Cur(ctx, I, with_facts(st0, st), a[0])
    if not c0.ok or c0.text is None:
        obs.dunno("destination", wh, "cursor not understood")
        return
    for s2, pos, sticky, moved in spec(name, I, st, c0, arg):
        c1 = Cur(ctx, I, s2, a[0])
        if not c1.ok or c1.pos is None:
            obs.dunno("destination", wh, "cursor not understood")
            continue
        if moved == "either":
            # only the line number matters: at the start of an empty last line, or unchanged
            k = holds(I, s2, ieq(c1.pos[0], pos[0]))
            ok = same_pos(I, s2, c1.pos, pos) is True or holds(I, s2, conj(ieq(c1.pos[0], pos[0]), ieq(c1.pos[1], Z0)))
            obs.decide(ok, "destination", wh, "%s on a line without content leads to %s" % (name, show(c1.pos)), path_of(s2), key="destination@" + name)
            continue
        obs.decide(soften(s2, same_pos(I, s2, c1.pos, pos)), "destination", wh, "%s leads to %s, it has to lead to %s" % (name, show(c1.pos), show(pos)), path_of(s2), key="destination@" + name)
        if sticky is not None:
            obs.decide(soften(s2, equal(I, s2, c1.sticky, sticky)), "column", wh, "after %s the remembered column is %s, not %s" % (name, show(c1.sticky), show(sticky)), path_of(s2), key="column@" + name)
        else:
            r = [equal(I, s2, c1.sticky, c0.sticky), equal(I, s2, c1.sticky, pos[1])]
            obs.decide(soften(s2, True if True in r else (None if None in r else False)), "column", wh, "after %s the remembered column is %s" % (name, show(c1.sticky)), path_of(s2), key="column@" + name)
        if name == "move_to":
            for s3, r in truth(s2, I.val(s2, ret)):
                obs.decide(soften(s3, r == moved), "result", wh, "move_to reports %s although the position is %s bounds" % (r, "in" if moved else "out of"), path_of(s3), key="result@move_to")


def soften(st, r):
    return None if r is False and (st.unk or any(taint(c) for c in st.pc)) else r


def replace(ctx, obs):
    f = ctx.method("Buffer", "replace")
    if not need(obs, f, "Buffer::replace"):
        return
    I, st0, a, outs = run_buffer(ctx, obs, f)
    wh = where(f)
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        v0, v1 = View(ctx, I, with_facts(st0, st), a[0]), View(ctx, I, st, a[0])
        if not v1.ok or v0.cpos is None or v1.cpos is None or v1.text is None:
            obs.dunno("replace-cursor", wh, "buffer not understood")
            continue
        obs.decide(True if v1.cdata is v1.data else (None if st.unk or taint(v1.cdata) else False), "shared-text", wh, "after replacing, the cursor is bound to %s and the buffer to %s" % (show(v1.cdata), show(v1.data)), path_of(st), key="shared-text@replace")
        if equal(I, st, v0.text, v1.text) is True:
            obs.decide(same_pos(I, st, v0.cpos, v1.cpos), "replace-cursor", wh, "the cursor moves although the content stays the same", path_of(st), key="replace-cursor")
            continue
        for s2, full in in_bounds(I, st, v1.text, v0.cpos):
            if full:
                want = [(s2, v0.cpos)]
            else:
                want = [(s3, (v0.cpos[0], Z0) if ln else (Z0, Z0)) for s3, ln in in_bounds(I, s2, v1.text, (v0.cpos[0], Z0))]
            for s3, p in want:
                obs.decide(soften(s3, same_pos(I, s3, v1.cpos, p)), "replace-cursor", wh, "replacing leaves the cursor at %s, %s is required" % (show(v1.cpos), show(p)), path_of(s3), key="replace-cursor")
