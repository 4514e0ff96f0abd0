"""Every public workspace method is interpreted on an arbitrary coherent workspace. One that adds a buffer has
to give it an id that is the next id plus a constant, and to raise the next id by a positive constant; every
other one has to keep the next id; every buffer that was open keeps its id, whatever its place. Every public
method of a buffer and every operation is interpreted, and must leave the buffer's id as it was."""
from .ws import *
from .buf import *
from .c02 import impls

ASSUMPTIONS = ["users do not assign the public id field themselves", "fewer than 2^64 buffers are ever added"]


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "Workspace", "fields of the workspace not understood")
        return
    for f in methods(ctx):
        for empty in (True, False):
            os_, outs = outcomes(ctx, obs, f, empty, report=False)
            for o in os_:
                judge(ctx, obs, f, o)
    for f in mutators(ctx):
        kept(ctx, obs, f)
    for n in ("run", "reverse"):
        for f in impls(ctx, n):
            kept(ctx, obs, f, 1)


def mutators(ctx):
    out = []
    tid = ctx.adt("buffer::Buffer")
    for f in ctx.methods("Buffer"):
        if f.get("pub") and not f.get("impl_trait") and f["argc"] >= 1:
            t = ctx.types[f["locals"][1][0]]
            if t["k"] == "ref" and t["mut"] and t["ty"] == tid:
                out.append(f)
    return out


def kept(ctx, obs, f, k=0):
    I = World(ctx, opaque_ops=f["item"] in ("undo", "redo"))
    pre = f["locals"][k + 1][1] or "arg%d" % (k + 1)
    I, st0, a, outs = analyse(ctx, obs, f, I, over=alias(ctx, pre))
    for o in outs:
        if o[0] != "ret":
            continue
        v0, v1 = View(ctx, I, with_facts(st0, o[1]), a[k]), View(ctx, I, o[1], a[k])
        if not v1.ok:
            obs.dunno("id-kept", where(f), "buffer not understood")
            continue
        obs.decide(equal(I, o[1], v0.id, v1.id), "id-kept", where(f), "%s changes the buffer's id to %s" % (f["item"], show(v1.id, 5)), path_of(o[1]), key="id-kept@" + canon(f["name"]))


def decide(obs, o, st, v, rule, msg):
    if v is False and (st.unk or taint(o.L) or any(taint(c) for c in st.pc)):
        v = None
    obs.decide(v, rule, where(o.f), msg, path_of(st), key=rule + "@" + o.f["item"])


def const(I, st, a, b):
    """a - b when that is a known number"""
    d = I.norm(st, sub(I.norm(st, a), I.norm(st, b)))
    if d.op == "int":
        return d.args[0]
    for k in (0, 1, -1, 2):
        if st.facts.entails_eq0(sub(d, T("int", k))):
            return k
    return None


def judge(ctx, obs, f, o):
    I, s = o.I, o.s
    next0 = I.project(o.st, s.w0, ("f", s.lay["next"]))
    next1 = s.get(I, o.st, "next")
    n0, n1 = I.seq_len(s.L), I.seq_len(o.L)
    for st, grown in truth(o.st, ieq(n1, add(n0, I1))):
        step = const(I, st, next1, next0)
        if not grown:
            r = step is not None and step >= 0
            decide(obs, o, st, True if r else (None if taint(next1) else False), "next-kept", "%s changes the next id to %s" % (f["item"], show(next1, 4)))
            same_ids(obs, o, st, n0, n1)
            continue
        if o.j is None:
            decide(obs, o, st, False, "fresh-id", "no buffer is current after adding one")
            continue
        for s2, b in forks(I, st, lambda st: I.force(st, I.seq_at(st, o.L, o.j))):
            v = bfield(s, I, s2, b, "id")
            if v.op != "adt":
                decide(obs, o, s2, None if taint(v) else False, "fresh-id", "the added buffer's id is %s" % show(v, 5))
                continue
            if v.args[1] == 0:
                decide(obs, o, s2, False, "fresh-id", "the added buffer gets no id")
                continue
            a = const(I, s2, v.args[2], next0)
            r = a is not None and step is not None and step >= 1
            decide(obs, o, s2, True if r else (None if taint(v) or taint(next1) else False), "fresh-id", "the added buffer's id becomes %s and the next id %s, so that an id may be given twice" % (show(v.args[2], 4), show(next1, 4)))
        same_ids(obs, o, st, n0, n1, o.j)


def same_ids(obs, o, st, n0, n1, new=None):
    """the buffers that were open keep their ids"""
    I, s = o.I, o.s
    m = T("sym", "m", I.ty_by_s["usize"])
    st = st.copy()
    if not st.assume(le(Z0, m)) or not st.assume(lt(m, n0)):
        return
    sts = []
    d = const(I, st, n1, n0)
    if d == 0:
        sts = [(st, m)]
    elif d == 1 and new is not None:
        sts = [(s2, add(m, I1) if not b else m) for s2, b in truth(st, lt(m, new))]
    elif d == -1:
        for s2, k in cases(st, m, s.i):
            if k != "=":
                sts.append((s2, m if k == "<" else sub(m, I1)))
    else:
        decide(obs, o, st, None if taint(n1) else False, "ids-kept", "the number of buffers becomes %s" % show(n1, 4))
    for s2, to in sts:
        for s3, (x, y) in forks(I, s2, lambda z: (bfield(s, I, z, I.seq_at(z, s.L, m), "id"), bfield(s, I, z, I.seq_at(z, o.L, to), "id"))):
            v = equal(I, s3, x, y)
            decide(obs, o, s3, v, "ids-kept", "the id of an open buffer becomes %s" % show(y, 5))
