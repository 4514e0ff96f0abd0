"""A buffer as its users see it: text, cursor, recorded operations, mark, path, callback."""
from .common import *
from absint.world import World, coff_cases
from absint.models import app

Z0 = T("int", 0)
I1 = T("int", 1)


class View:
    """what a state says about the buffer at a place"""

    def __init__(self, ctx, I, st, ref):
        self.ctx, self.I, self.st = ctx, I, st
        lay = ctx.layout_buffer()
        self.ok = lay is not None
        if not self.ok:
            return
        v = I.force(st, I.val(st, ref))
        self.buf = v
        g = lambda n: I.project(st, v, ("f", lay[n]))
        self.data = g("data")
        self.root = self.data.args[0] if self.data.op == "rc" else None
        self.text = None
        if self.root is not None:
            c = I.read(st, self.root, (("cell",),))
            if c.op == "gb":
                self.text = c.args[0]
        cur = I.force(st, g("cursor"))
        lc = ctx.layout_cursor()
        self.cursor = cur
        self.cdata = self.cpos = self.sticky = None
        if cur.op == "adt" and None not in (lc["data"], lc["position"]):
            self.cdata = I.project(st, cur, ("f", lc["data"]))
            p = I.force(st, I.project(st, cur, ("f", lc["position"])))
            self.cpos = position(I, st, p)
            if lc["sticky"] is not None:
                self.sticky = I.project(st, cur, ("f", lc["sticky"]))
        h = I.force(st, g("history"))
        lh = ctx.layout_history()
        self.hist = h
        self.prev = self.next = self.mark = None
        if all(k in lh for k in ("previous", "next", "mark")):
            self.prev = I.project(st, h, ("f", lh["previous"]))
            self.next = I.project(st, h, ("f", lh["next"]))
            self.mark = I.force(st, I.project(st, h, ("f", lh["mark"])))
        self.group = I.force(st, g("group"))
        self.id, self.path, self.syntax, self.callback = I.force(st, g("id")), I.force(st, g("path")), I.force(st, g("syntax")), I.force(st, g("callback"))

    def group_ops(self):
        """None when no group is open, 'unknown', or the recorded operations"""
        g = self.group
        if g.op == "adt":
            if g.args[1] == 0:
                return None
            x = self.I.force(self.st, g.args[2])
            tid = self.ctx.adt("OperationGroup")
            i = self.ctx.field_by(tid, lambda n, t: t.get("path") == "std::vec::Vec")
            if not i:
                return "unknown"
            return self.I.project(self.st, x, ("f", i[0]))
        return "unknown"


def world(ctx):
    return World(ctx)


def alias(ctx, pre="self"):
    """cursor and buffer refer to the same text (checked separately to be preserved)"""
    lay, lc = ctx.layout_buffer(), ctx.layout_cursor()
    if lay is None or lc["data"] is None:
        return {}
    fs = ctx.fields(lay["tid"])
    cs = ctx.fields(lc["tid"])
    return {"%s.%s.%s" % (pre, fs[lay["cursor"]][0], cs[lc["data"]][0]): T("rc", ("R", "%s.%s" % (pre, fs[lay["data"]][0])))}


def run_buffer(ctx, obs, f, pre="self", **kw):
    I = world(ctx)
    return analyse(ctx, obs, f, I, over=alias(ctx, pre), **kw)


def op_method(ctx, op, name):
    """the implementation of an operation's method, for an operation value"""
    v = op
    if v.op == "box":
        v = v.args[0]
    if v.op != "adt":
        return None, v
    return ctx.method(v.args[0].split("::")[-1], name, "Operation"), v


def appended(I, st, old, new):
    """the elements by which one sequence extends another, or None"""
    if equal(I, st, old, new) is True:
        return []
    n0 = I.seq_len(old)
    try:
        pre = I.seq_slice(st, new, Z0, n0)
        tail = I.seq_slice(st, new, n0, I.seq_len(new))
    except Split:
        return None
    if equal(I, st, pre, old) is not True:
        return None
    out = []
    for p in I.seq_pieces(tail):
        if p.op != "el":
            return None
        out.append(p.args[0])
    return out


def recorded(v0, v1):
    """which operations were recorded between two views, and where: (where, [ops]) or None when the
    change is not one of recording operations"""
    I, st = v1.I, v1.st
    g0, g1 = v0.group_ops(), v1.group_ops()
    if isinstance(g0, str) or isinstance(g1, str):
        # open or not is not known on this path: then nothing may have been recorded
        if equal(I, st, v0.group, v1.group) is True and equal(I, st, v0.prev, v1.prev) is True:
            return ("none", [])
        return None
    h = appended(I, st, v0.prev, v1.prev)
    if h is None:
        return None
    if g0 is None and g1 is None:
        return ("history", h)
    if g0 is not None and g1 is not None:
        a = appended(I, st, g0, g1)
        if a is None or h:
            return None
        return ("group", a)
    return None


def run_op(ctx, I, st, f, opref, bufref):
    """[(kind, state)] after an operation's method"""
    st = st.copy()
    st.events = ()
    return I.run_body(st, f, [opref, bufref])


def text_after(ctx, I, st, bufref):
    return View(ctx, I, st, bufref).text


EDITS = ("insert", "delete", "delete_range", "replace")


def edits(ctx, obs):
    out = []
    for n in EDITS:
        f = ctx.method("Buffer", n)
        if need(obs, f, "Buffer::" + n):
            out.append(f)
    return out


def with_facts(st0, st):
    """the entry state with what is known at the end of a path"""
    s = st0.copy()
    s.facts = st.facts
    return s


def undo_redo(ctx, obs, I, st, f, bufref, op, text0, text1, name):
    rev, val = op_method(ctx, op, "reverse")
    run, _ = op_method(ctx, op, "run")
    clo, _ = op_method(ctx, op, "clone_operation")
    if rev is None or run is None:
        obs.dunno("reversible", where(f), "recorded operation not understood: " + show(op))
        return
    st = st.copy()
    root = ("T", "recorded")
    st.store[root] = val
    states = [(st, "as recorded")]
    if clo is not None:
        for q in I.run_body(st.copy(), clo, [T("ref", root)]):
            if q[0] != "ret":
                continue
            c = q[2].args[0] if q[2].op == "box" else q[2]
            s2 = q[1]
            e = equal(I, s2, c, val)
            obs.decide(e, "faithful-copy", where(clo), "the copy of a recorded operation is %s, not %s" % (show(c), show(val)), path_of(s2), key="faithful-copy@" + canon(clo["name"]))
    for s, how in states:
        for q in run_op(ctx, I, s, rev, T("ref", root), bufref):
            if q[0] != "ret":
                obs.decide(None if q[1].unk else False, "reversible", where(rev), "reversing the operation recorded by %s may panic: %s" % (name, q[2]), path_of(q[1]), key="reversible@" + name)
                continue
            t = text_after(ctx, I, q[1], bufref)
            e = equal(I, q[1], t, text0) if t is not None else None
            obs.decide(e, "reversible", where(rev), "reversing the operation recorded by %s gives %s instead of the original text" % (name, show(t)), path_of(q[1]), key="reversible@" + name)
            if e is not True:
                continue
            for z in run_op(ctx, I, q[1], run, T("ref", root), bufref):
                if z[0] != "ret":
                    obs.decide(None if z[1].unk else False, "re-runnable", where(run), "re-running the operation recorded by %s may panic" % name, path_of(z[1]), key="re-runnable@" + name)
                    continue
                t = text_after(ctx, I, z[1], bufref)
                e = equal(I, z[1], t, text1) if t is not None else None
                obs.decide(e, "re-runnable", where(run), "re-running the operation recorded by %s gives %s instead of the edited text" % (name, show(t)), path_of(z[1]), key="re-runnable@" + name)
                if e is not True:
                    continue
                for y in run_op(ctx, I, z[1], rev, T("ref", root), bufref):
                    if y[0] == "ret":
                        t = text_after(ctx, I, y[1], bufref)
                        e = equal(I, y[1], t, text0) if t is not None else None
                        obs.decide(e, "reversible", where(rev), "reversing again after a redo gives %s" % show(t), path_of(y[1]), key="reversible@" + name)
