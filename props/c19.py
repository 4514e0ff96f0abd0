"""Every public workspace method is interpreted on an arbitrary coherent workspace (any number of buffers,
any of them current). Afterwards something is current exactly if there are buffers, at an index inside the
list, where the list itself holds a placeholder; and the list of buffers, with the current one in its place,
is the one required: a new buffer right after the current one, the current one removed, or unchanged, with
the right buffer current. Counted wrap-around neighbours and the index reported are part of it."""
from .ws import *

ASSUMPTIONS = ["users do not overwrite the workspace's public current buffer (replacing it with another of theirs keeps the list coherent)"]


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "Workspace", "fields of the workspace not understood")
        return
    fresh(ctx, obs)
    for f in methods(ctx):
        for empty in (True, False):
            os_, outs = outcomes(ctx, obs, f, empty)
            no_panic(obs, f, outs)
            for o in os_:
                judge(ctx, obs, f, o)


def fresh(ctx, obs):
    f = ctx.method("Workspace", "new")
    if not need(obs, f, "Workspace::new"):
        return
    lay = layout(ctx)
    I, st0, a, outs = analyse(ctx, obs, f, World(ctx))
    for o in outs:
        if o[0] != "ret":
            continue
        for st, ok, w in result_cases(I, o[1], o[2]):
            if not ok:
                continue
            w = I.force(st, w)
            cur, idx, lst = (I.force(st, I.project(st, w, ("f", lay[k]))) for k in ("current", "index", "list"))
            good = lst.op == "nil" and cur.op == "adt" and cur.args[1] == 0 and idx.op == "adt" and idx.args[1] == 0
            obs.decide(True if good else (None if st.unk or taint(w) else False), "new-is-empty", where(f), "a new workspace is not empty: %s" % show(w, 5), path_of(st), key="new-is-empty")


def decide(obs, o, v, rule, msg):
    if v is False and o.fuzzy():
        v = None
    obs.decide(v, rule, where(o.f), msg, path_of(o.st), key=rule + "@" + o.f["item"])


def idx(v):
    return show(v) if v is not None else "none"


def index_is(obs, o, want, rule="selects"):
    if (o.j is None) != (want is None):
        v = False
    else:
        v = True if want is None else equal(o.I, o.st, o.j, want)
        if v is None and by_content(o, o.j, want):
            obs.decide(False, rule, where(o.f), "the buffer selected is looked for by what the buffers hold", path_of(o.st), key=rule + "@" + o.f["item"])
            return
    decide(obs, o, v, rule, "the current index becomes %s, not %s" % (idx(o.j), idx(want)))


def by_content(o, j, want):
    """is an index the place at which a loop found a buffer with some contents, and can it be another than the
    one wanted?"""
    lvs = [x for x in subterms(j) if x.op == "lv"]
    if len(lvs) != 1 or o.st.unk or has_op(j, "unk"):
        return False
    found = [c for c in o.st.pc if any(x.op == "at" and x.args[0] is not j and lvs[0] in subterms(x.args[1]) for x in subterms(c))]
    if not found or any(has_op(c, "unk") for c in o.st.pc):
        return False
    s2 = o.st.copy()
    return s2.assume(lt(want, j)) and s2.facts.feasible()


def list_is(obs, o, got, want, rule, what):
    v = equal(o.I, o.st, got, want)
    decide(obs, o, v, rule, "%s: the list of buffers becomes %s" % (what, show(o.L, 7)))


def split(o, fn):
    """fn on every case the outcome has to be split into"""
    for s2, _ in forks(o.I, o.st, lambda st: fn(Outcome(o.I, o.s, o.f, st, o.L, o.j, o.ret, o.a), True)):
        fn(Outcome(o.I, o.s, o.f, s2, o.L, o.j, o.ret, o.a), False)


def judge(ctx, obs, f, o):
    n = f["item"]
    L, i, I = o.s.L, o.s.i, o.I
    if n == "add_buffer":
        added(obs, o)
    elif n == "open_buffer":
        for st, ok, _ in result_cases(I, o.st, o.ret):
            o2 = Outcome(I, o.s, f, st, o.L, o.j, o.ret, o.a)
            n0, n1 = I.seq_len(L), I.seq_len(o2.L)
            if ok and equal(I, st, n1, n0) is not True:
                added(obs, o2)
            else:
                list_is(obs, o2, o2.L, L, "list-kept", "opening a buffer that is open, or cannot be loaded")
                if not ok:
                    index_is(obs, o2, i)
    elif n == "close_current_buffer":
        if o.s.empty:
            list_is(obs, o, o.L, L, "list-kept", "closing without a buffer")
            return
        want = I.seq_cat(o.st, I.seq_slice(o.st, L, Z0, i), I.seq_slice(o.st, L, add(i, I1), I.seq_len(L)))
        list_is(obs, o, o.L, want, "closes", "closing the current buffer")
        for st, k in cases(o.st, I.seq_len(L), I1):
            if k == "<":
                continue
            if k == "=":
                index_is(obs, Outcome(I, o.s, f, st, o.L, o.j, o.ret, o.a), None)
                continue
            for st2, k2 in cases(st, i, Z0):
                if k2 != "<":
                    index_is(obs, Outcome(I, o.s, f, st2, o.L, o.j, o.ret, o.a), Z0 if k2 == "=" else sub(i, I1))
    elif n in ("next_buffer", "previous_buffer"):
        list_is(obs, o, o.L, L, "list-kept", "selecting another buffer")
        if o.s.empty:
            return
        last = sub(I.seq_len(L), I1)
        edge, other, step = (last, Z0, 1) if n == "next_buffer" else (Z0, last, -1)
        for st, k in cases(o.st, i, edge):
            index_is(obs, Outcome(I, o.s, f, st, o.L, o.j, o.ret, o.a), other if k == "=" else add(i, T("int", step)))
    elif n == "update_current_syntax" and not o.s.empty:
        index_is(obs, o, i)
        if o.j is None:
            return
        list_is(obs, o, without(o, o.j), I.seq_cat(o.st, I.seq_slice(o.st, L, Z0, i), I.seq_slice(o.st, L, add(i, I1), I.seq_len(L))), "list-kept", "updating the syntax")
        same_buffer(ctx, obs, o, o.at(o.j), I.seq_at(o.st, L, i), ("syntax",))
    else:
        list_is(obs, o, o.L, L, "list-kept", "a method that does not change the list")
        index_is(obs, o, i)
        if n == "current_buffer_index":
            v = I.val(o.st, o.ret)
            for st, x in opt(I, o.st, v):
                r = (x is None) == (i is None) and (x is None or equal(I, st, x, i))
                obs.decide(r if r is not False else (None if taint(v) else False), "index-reported", where(f), "the index reported is %s, not %s" % (show(v), idx(i)), path_of(st), key="index-reported")


def same_buffer(ctx, obs, o, b, b0, but):
    for k in ("data", "cursor", "history", "group", "id", "path", "callback", "syntax"):
        if k in but:
            continue
        x, y = o.field(b, k), o.field(b0, k)
        decide(obs, o, equal(o.I, o.st, x, y), "buffer-kept", "a buffer's %s changes to %s" % (k, show(x, 5)))


def added(obs, o):
    I, st, L, i = o.I, o.st, o.s.L, o.s.i
    want = Z0 if i is None else add(i, I1)
    if o.j is None:
        decide(obs, o, False, "selects", "nothing is selected after adding a buffer")
        return
    index_is(obs, o, want)
    if equal(I, st, o.j, want) is not True:
        return
    for s2, rest in forks(I, st, lambda st: without(Outcome(I, o.s, o.f, st, o.L, o.j, o.ret, o.a), want)):
        o2 = Outcome(I, o.s, o.f, s2, o.L, o.j, o.ret, o.a)
        list_is(obs, o2, rest, L, "adds-one", "adding a buffer")
        b = [x for n, x in zip((l[1] for l in o.f["locals"][1:]), o.a) if n == "buf"] or [x for x in o.a if x.op == "adt"]
        if o.f["item"] == "add_buffer" and b:
            same_buffer(o.s.ctx, obs, o2, o2.at(want), b[0], ("id", "syntax"))
