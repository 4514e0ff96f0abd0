"""open_buffer is interpreted on an arbitrary coherent workspace and an arbitrary path. Where it succeeds
without adding a buffer, the list must be unchanged and the buffer selected must have the canonical path.
Where it adds one or fails, no open buffer may have that path: one that did, at an arbitrary index, is assumed,
and the tests every turn of the search loops made at that index must contradict it. An added buffer must have
the canonical path and the file's content; a failure must leave everything unchanged and have a cause."""
from .ws import *
from .buf import *

ASSUMPTIONS = ["the file system does not change during the call", "buffers' paths are canonical, as loading a file makes them"]


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "Workspace", "fields of the workspace not understood")
        return
    f = ctx.method("Workspace", "open_buffer")
    if not need(obs, f, "Workspace::open_buffer"):
        return
    for empty in (True, False):
        os_, outs = outcomes(ctx, obs, f, empty, report=False)
        no_panic(obs, f, outs)
        for o in os_:
            for st, ok, err in result_cases(o.I, o.st, o.ret):
                judge(ctx, obs, f, Outcome(o.I, o.s, f, st, o.L, o.j, o.ret, o.a), ok, err)


def decide(obs, o, st, v, rule, msg):
    if v is False and (st.unk or taint_but_index(o, st)):
        v = None
    obs.decide(v, rule, where(o.f), msg, path_of(st), key=rule + "@open_buffer")


def taint_but_index(o, st):
    """a search's result is an index of which only what the search tested is known: that is fine"""
    return any(has_op(t, "unk") for t in (o.L,) + tuple(st.pc))


def simple(t):
    return rewrite(t, lambda x: x.args[0] if x.op in ("deref", "vref") and isinstance(x.args[0], Term) else None)


def path_arg(o):
    I, st = o.I, o.st
    for (tid, name), v in zip(o.f["locals"][1:], o.a):
        if v is not o.a[0]:
            return deref_all(I, st, v)
    return None


def judge(ctx, obs, f, o, ok, err):
    I, st, s, L = o.I, o.st, o.s, o.s.L
    p = path_arg(o)
    cr = T("app", "path:canonicalize", p)
    canonp = T("vf", cr, 0, 0)
    n0, n1 = I.seq_len(L), I.seq_len(o.L)
    for st, grown in truth(st, lt(n0, n1)):
        o2 = Outcome(I, s, f, st, o.L, o.j, o.ret, o.a)
        if not ok:
            decide(obs, o2, st, equal(I, st, o.L, L) if not grown else False, "error-unchanged", "a failing open changes the buffers to %s" % show(o.L, 6))
            v = (o.j is None) == (s.i is None) and (o.j is None or equal(I, st, o.j, s.i))
            decide(obs, o2, st, v, "error-unchanged", "a failing open selects another buffer")
            cause = any(x.op == "app" and i == 1 and (x.args[0].startswith("fs:") or x.args[0].startswith("path:canon")) for x, i in st.facts.variants.items())
            decide(obs, o2, st, True if cause else False, "error-cause", "opening reports an error although the file could be loaded: %s" % show(err, 6))
            no_duplicate(ctx, obs, o2, canonp, cr)
        elif grown:
            added(ctx, obs, o2, canonp, p)
            no_duplicate(ctx, obs, o2, canonp, cr)
        else:
            decide(obs, o2, st, equal(I, st, o.L, L), "select-unchanged", "selecting an open buffer changes the buffers to %s" % show(o.L, 6))
            if o.j is None:
                decide(obs, o2, st, False, "selects-open", "nothing is selected after a successful open")
                continue
            for s2, b in forks(I, st, lambda z: I.force(z, I.seq_at(z, o.L, o.j))):
                for s3, q in opt(I, s2, bfield(s, I, s2, b, "path")):
                    v = q is not None and (holds_eq(I, s3, q, canonp) is True)
                    decide(obs, o2, s3, v, "selects-open", "the buffer selected for a path has the path %s" % (show(q, 5) if q is not None else "none"))


def holds_eq(I, st, a, b):
    a, b = simple(I.val(st, a)), simple(I.val(st, b))
    if a is b:
        return True
    pcs = [simple(c) for c in st.pc]
    for x, y in ((a, b), (b, a)):
        if T("eq", x, y) in pcs:
            return True
    return st.facts.decide(I.eqv(st, a, b))


def added(ctx, obs, o, canonp, p):
    I, st, s = o.I, o.st, o.s
    if o.j is None:
        decide(obs, o, st, False, "added-path", "nothing is selected after opening a file")
        return
    for s2, b in forks(I, st, lambda z: I.force(z, I.seq_at(z, o.L, o.j))):
        for s3, q in opt(I, s2, bfield(s, I, s2, b, "path")):
            v = q is not None and simple(I.val(s3, q)) is simple(canonp) or (q is not None and holds_eq(I, s3, q, canonp) is True)
            decide(obs, o, s3, True if v else False, "added-path", "the buffer opened has the path %s instead of the canonical one" % (show(q, 5) if q is not None else "none"))
        v = bfield(s, I, s2, b, "data")
        t = None
        if v.op == "rc":
            c = I.read(s2, v.args[0], (("cell",),))
            t = c.args[0] if c.op == "gb" else None
        if t is None:
            decide(obs, o, s2, None, "added-text", "the text of the buffer opened is not understood")
            continue
        t = simple(I.val(s2, t))
        want = [T("vf", T("app", "fs:read_to_string", simple(x)), 0, 0) for x in (p, canonp)]
        decide(obs, o, s2, True if t in want else (None if taint(t) else False), "added-text", "the buffer opened holds %s, not the file's content" % show(t, 5))


def no_duplicate(ctx, obs, o, canonp, cr):
    """no open buffer has the canonical path where a search found none"""
    I, s = o.I, o.s
    if s.empty:
        obs.ok("no-duplicate", where(o.f))
        return
    m = T("sym", "m", I.ty_by_s["usize"])
    st = o.st.copy()
    st.store[("T", "hyp")] = T("nil")
    if not (st.assume(T("isvar", cr, 0)) and st.assume(le(Z0, m)) and st.assume(lt(m, I.seq_len(s.L)))):
        obs.ok("no-duplicate", where(o.f))
        return
    b = I.force(st, I.seq_at(st, s.L, m))
    path = I.project(st, b, ("f", ctx.layout_buffer()["path"]))
    if not st.assume(T("isvar", path, 1)):
        obs.ok("no-duplicate", where(o.f))
        return
    q = T("vf", path, 1, 0)
    hyp = [I.eqv(st, canonp, q)]
    ends = [e for e in st.events if e.kind == "loopend"]
    left = []
    for s2, k in cases(st, m, s.i):
        if not all(assume_eq(I, s2, canonp, q, m, s.i, k) for _ in (0,)):
            continue
        for e in ends:
            s2 = close(I, s2, e, m, canonp, q)
            if s2 is None:
                break
        if s2 is not None:
            left.append(s2)
    if not left:
        obs.ok("no-duplicate", where(o.f))
    for s2 in left:
        decide(obs, o, s2, False, "no-duplicate", "a file is %s although a buffer with its path may be open" % ("loaded again" if I.seq_len(o.L) is not I.seq_len(s.L) else "reported as failing"))


def contradicts(I, st, canonp, q, m, i, k):
    """do the tests made so far say that the buffer's path is another one?"""
    ren = {m: i} if k == "=" else {}
    a, b = simple(canonp), simple(subst(q, ren)) if ren else simple(q)
    qs = {b, simple(q)}
    path = {x.args[0] for x in qs}
    for c in st.pc:
        c = simple(c)
        if c.op == "not" and c.args[0].op == "eq" and a in c.args[0].args and any(x in c.args[0].args for x in qs):
            return True
        if c.op == "isvar" and c.args[1] == 0 and c.args[0] in path:
            return True
    return False


def assume_eq(I, st, canonp, q, m, i, k):
    if contradicts(I, st, canonp, q, m, i, k):
        return False
    if k == "=":
        if st.facts.decide(T("isvar", subst(q.args[0], {m: i}), 1)) is False:
            return False
    return st.assume(I.eqv(st, canonp, q)) if st.facts.decide(I.eqv(st, canonp, q)) is not True else True


def close(I, st, e, m, canonp, q):
    """None if the loop's turn at the hypothetical buffer contradicts it, the state otherwise"""
    info, k0, step, end = e.d["info"], e.d["k0"], e.d["step"], e.d["end"]
    k = info["index"][0]
    for at in (m, add(m, I1)):
        inside = [le(k0, at), lt(at, end)] if step == 1 else [lt(end, at), le(at, k0)]
        s0 = st.copy()
        outside = False
        for c in inside:
            s3 = st.copy()
            if s3.assume(neg(c)):
                outside = True
        if outside:
            continue
        alive = False
        for t in info["transitions"]:
            fresh = {lv: T("sym", "other%d" % n, None) for n, lv in enumerate(info["lvs"]) if lv is not k}
            pcs = [subst(c, {**fresh, k: at}) for c in t["pc"]]
            s4 = s0.copy()
            ok = True
            for c in pcs:
                if not s4.assume(c):
                    ok = False
                    break
            if ok and not contradicts(I, s4, canonp, q, m, None, "<"):
                alive = True
        if not alive:
            return None
    return st

