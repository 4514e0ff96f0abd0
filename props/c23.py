"""The paths reported are computed on an arbitrary coherent workspace: for the current buffer, and for the
buffer at an arbitrary index of the list reported, they are compared with the documented ones, and the list's
length with the number of buffers. Creating a workspace is interpreted on arbitrary arguments: it succeeds only
if resolving the path and loading syntaxes did, with the resolved path, no buffers and the syntaxes loaded."""
from .ws import *
from .buf import *
from .c22 import simple, payload, Known

ASSUMPTIONS = ["Path::strip_prefix succeeds exactly if the path lies inside the prefix"]


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "Workspace", "fields of the workspace not understood")
        return
    for name, judge in (("current_buffer_path", current), ("buffer_paths", listed)):
        f = ctx.method("Workspace", name)
        if not need(obs, f, "Workspace::" + name):
            continue
        for empty in (True, False):
            os_, outs = outcomes(ctx, obs, f, empty, report=False)
            no_panic(obs, f, outs)
            for o in os_:
                judge(ctx, obs, o)
    fresh(ctx, obs)


def decide(obs, f, st, v, rule, msg, extra=()):
    if v is False and (st.unk or any(taint(c) for c in st.pc + tuple(extra))):
        v = None
    obs.decide(v, rule, where(f), msg, path_of(st), key=rule + "@" + f["item"])


def documented(I, s, st, b):
    """[(knowledge, path or None)]"""
    k = Known(st)
    path = simple(bfield(s, I, st, b, "path"))
    ws = simple(s.get(I, st, "path"))
    out = []
    for k1, i in k.variant(path):
        if i == 0:
            out.append((k1, None))
            continue
        p = payload(path)
        r = T("app", "path:strip_prefix", p, ws)
        for k2, j in k1.variant(r):
            out.append((k2, payload(r, 0) if j == 0 else p))
    return out


def same(obs, o, st, got, b, rule):
    I, s = o.I, o.s
    for st2, x in opt(I, st, got):
        y = simple(deref_all(I, st2, x)) if x is not None else None
        for k, want in documented(I, s, st2, b):
            decide(obs, o.f, st2, y is want, rule, "the path reported is %s where it is to be %s" % (show(y, 6) if y is not None else "none", show(want, 6) if want is not None else "none"), (got,))


def current(ctx, obs, o):
    I, s = o.I, o.s
    if s.empty:
        for st, x in opt(I, o.st, o.ret):
            decide(obs, o.f, st, x is None, "path", "an empty workspace reports a current path")
        return
    for st, b in forks(I, o.st, lambda z: I.force(z, I.seq_at(z, s.L, s.i))):
        same(obs, o, st, o.ret, b, "path")


def listed(ctx, obs, o):
    I, s = o.I, o.s
    got = I.val(o.st, o.ret)
    n = I.seq_len(got)
    v = equal(I, o.st, n, I.seq_len(s.L))
    decide(obs, o.f, o.st, v, "one-each", "%s paths are reported for %s buffers" % (show(n, 6), show(I.seq_len(s.L))), (got,))
    if s.empty or v is not True:
        return
    m = T("sym", "m", I.ty_by_s["usize"])
    st = o.st.copy()
    if not (st.assume(le(Z0, m)) and st.assume(lt(m, n))):
        return
    for st2, x in forks(I, st, lambda z: I.force(z, I.seq_at(z, got, m))):
        for st3, k in cases(st2, m, s.i):
            at = s.i if k == "=" else m
            for st4, b in forks(I, st3, lambda z: I.force(z, I.seq_at(z, s.L, at))):
                same(obs, o, st4, x, b, "listed-path")


def fresh(ctx, obs):
    f = ctx.method("Workspace", "new")
    if not need(obs, f, "Workspace::new"):
        return
    lay = layout(ctx)
    I, st0, a, outs = analyse(ctx, obs, f, World(ctx))
    no_panic(obs, f, outs)
    p = deref_all(I, st0, a[0])
    cr = T("app", "path:canonicalize", simple(p))
    for o in outs:
        if o[0] != "ret":
            continue
        for st, ok, w in result_cases(I, o[1], o[2]):
            k = Known(st)
            failed = [v for v, i in k.var.items() if i == 1 and v.op == "app" and fallible(v)]
            if not ok:
                decide(obs, f, st, bool(failed), "new-error", "creating a workspace fails although nothing went wrong: %s" % show(w, 5))
                continue
            decide(obs, f, st, not failed, "new-error", "a workspace is created although %s failed" % ", ".join(show(v, 3) for v in failed))
            w = I.force(st, w)
            path = simple(I.val(st, I.project(st, w, ("f", lay["path"]))))
            decide(obs, f, st, path is payload(cr, 0) and k.var.get(cr) == 0, "canonical", "a new workspace's path is %s, not the resolved one" % show(path, 5), (path,))
            sset = simple(I.val(st, I.project(st, w, ("f", lay["syntaxes"]))))
            base = T("app", "syntect::dumps::load_defaults_newlines")
            for s2, d in opt(I, st, a[1]):
                want = base
                if d is not None:
                    want = T("app", "syntect::parsing::SyntaxSetBuilder::build", T("app", "added", T("app", "syntect::parsing::SyntaxSet::into_builder", base), simple(deref_all(I, s2, d)), TRUE))
                if d is not None:
                    loads = [v for v, i in Known(s2).var.items() if i == 0 and v.op == "app" and "add_from_folder" in v.args[0]]
                    decide(obs, f, s2, bool(loads), "load-error", "a workspace is created without looking whether loading the syntaxes failed")
                decide(obs, f, s2, sset is want, "syntaxes", "the workspace's syntaxes are %s, not %s" % (show(sset, 7), show(want, 7)), (sset,))


def fallible(v):
    n = v.args[0]
    return n.startswith("path:canon") or n.startswith("fs:") or "add_from_folder" in n
