"""A workspace as its users see it: the list of open buffers (with the current one in its place), which of
them is current, the next id, the path and the syntaxes."""
from .common import *
from .buf import Z0, I1
from absint.world import World
from absint.models import app, SOME, NONE
from absint.terms import *


def layout(ctx):
    if hasattr(ctx, "_lws"):
        return ctx._lws
    ctx._lws = None
    tid = ctx.adt("Workspace")
    if tid is None:
        return None
    buf = ctx.adt("buffer::Buffer")
    bs = ctx.types[buf]["s"] if buf is not None else "?"
    want = {
        "list": lambda t: t.get("path") == "std::vec::Vec" and t["args"] and t["args"][0] == buf,
        "current": lambda t: t["s"] == "std::option::Option<%s>" % bs,
        "index": lambda t: t["s"] == "std::option::Option<usize>",
        "next": lambda t: t["s"] == "usize",
        "path": lambda t: t["s"] == "std::path::PathBuf",
        "syntaxes": lambda t: t["s"].endswith("SyntaxSet"),
    }
    r = {"tid": tid, "buf": buf}
    for k, p in want.items():
        c = ctx.field_by(tid, lambda n, t: p(t))
        if len(c) != 1:
            return None
        r[k] = c[0]
        r["n_" + k] = ctx.fields(tid)[c[0]][0]
    ctx._lws = r
    return r


def forks(I, st, fn):
    """fn on a state, split where it has to be: [(state, value)]"""
    out, todo = [], [st]
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > 400:
            raise Budget("too many cases")
        try:
            out.append((s, fn(s)))
        except Split as sp:
            for c in sp.alts:
                todo.extend(assume_all(s, c))
    return out


class Start:
    """a workspace that satisfies its invariant"""

    def __init__(self, ctx, empty):
        self.ctx, self.empty = ctx, empty
        self.lay = layout(ctx)

    def over(self, I):
        lay = self.lay
        o = {}
        opt_b = [t for t in range(len(I.types)) if I.types[t] and I.types[t]["s"] == "std::option::Option<%s>" % I.types[lay["buf"]]["s"]][0]
        p = "self."
        if self.empty:
            self.L = T("nil")
            self.i = None
            o[p + lay["n_list"]] = T("nil")
            o[p + lay["n_current"]] = NONE
            o[p + lay["n_index"]] = NONE
        else:
            vt = self.ctx.fields(lay["tid"])[lay["list"]][1]
            L = T("sym", "open", vt)
            I.note_type(L, vt)
            i = T("sym", "i", I.ty_by_s["usize"])
            self.L, self.i = L, i
            self.st = None
        return o

    def setup(self, I, st, a):
        """makes the workspace behind the first argument the arbitrary one"""
        lay = self.lay
        root = a[0].args[0]
        w = I.read(st, root, ())
        if not self.empty:
            st.assume(lt(self.i, I.seq_len(self.L)))
            st.assume(le(Z0, self.i))
            ph = I.sym(st, lay["buf"], "placeholder", {"placeholder." + self.ctx.fields(lay["buf"])[self.ctx.layout_buffer()["path"]][0]: NONE})
            n = I.seq_len(self.L)
            lst = I.mkcat(st, [T("sl", self.L, Z0, self.i), T("el", ph), T("sl", self.L, add(self.i, I1), n)])
            args = list(w.args)
            args[2 + lay["list"]] = lst
            args[2 + lay["current"]] = SOME(I.seq_at(st, self.L, self.i))
            args[2 + lay["index"]] = SOME(self.i)
            st.store[root] = T("adt", *args)
        self.root = root
        self.w0 = I.read(st, root, ())

    def get(self, I, st, k):
        w = I.force(st, I.read(st, self.root, ()))
        return I.project(st, w, ("f", self.lay[k]))


def run(ctx, obs, f, empty, args=None, pre=None):
    I = World(ctx)
    s = Start(ctx, empty)

    def setup(I, st, a):
        s.setup(I, st, a)
        if pre:
            pre(I, st, a)
    I, st0, a, outs = analyse(ctx, obs, f, I, over=s.over(I), setup=setup, args=args)
    return I, st0, a, outs, s


def views(obs, I, s, f, o):
    """[(state, list of buffers, current index or None)], or the obligation that failed"""
    st = o[1]
    lay = s.lay
    out = []

    def look(st):
        cur = I.force(st, s.get(I, st, "current"))
        idx = I.force(st, s.get(I, st, "index"))
        lst = s.get(I, st, "list")
        for v in (cur, idx):
            if v.op != "adt":
                raise Split(T("isvar", v, 1), T("isvar", v, 0))
        c = cur.args[2] if cur.args[1] == 1 else None
        j = idx.args[2] if idx.args[1] == 1 else None
        if c is None and j is None:
            e = st.facts.decide(ieq(I.seq_len(lst), Z0))
            return ("none", e, lst)
        if c is None or j is None:
            return ("odd", c, j)
        n = I.seq_len(lst)
        if st.facts.decide(lt(j, n)) is not True:
            return ("out", j, n)
        ph = I.force(st, I.seq_at(st, lst, j))
        php = I.force(st, I.project(st, ph, ("f", s.ctx.layout_buffer()["path"])))
        full = I.seq_cat(st, I.seq_slice(st, lst, Z0, j), T("el", c), I.seq_slice(st, lst, add(j, I1), n))
        return ("ok", full, j, php)
    for s2, r in forks(I, st, look):
        t = taint(s.get(I, s2, "list")) or taint(s.get(I, s2, "index")) or taint(s.get(I, s2, "current")) or s2.unk
        if r[0] == "none":
            obs.decide(True if r[1] is True else (None if t else False), "coherent", where(f), "nothing is current although there are buffers: %s" % show(r[2], 6), path_of(s2), key="coherent@" + f["item"])
            if r[1] is True:
                out.append((s2, T("nil"), None))
        elif r[0] == "odd":
            obs.decide(None if t else False, "coherent", where(f), "the current buffer and its index disagree: %s, %s" % (show(r[1], 4) if r[1] else "none", show(r[2], 4) if r[2] else "none"), path_of(s2), key="coherent@" + f["item"])
        elif r[0] == "out":
            obs.decide(None if t else False, "coherent", where(f), "the current index %s may lie outside the list of %s buffers" % (show(r[1]), show(r[2])), path_of(s2), key="coherent@" + f["item"])
        else:
            obs.ok("coherent", where(f))
            php = r[3]
            obs.decide(True if php is NONE or (php.op == "adt" and php.args[1] == 0) else (None if t else False), "placeholder", where(f), "the place of the current buffer in the list holds another buffer with path %s" % show(php, 5), path_of(s2), key="placeholder@" + f["item"])
            out.append((s2, r[1], r[2]))
    return out


def bfield(s, I, st, b, k):
    return I.force(st, I.project(st, I.force(st, b), ("f", s.ctx.layout_buffer()[k])))


def same_list(I, st, a, b):
    return equal(I, st, a, b)


def methods(ctx):
    """public methods of a workspace that can be called on one"""
    out = []
    for f in ctx.methods("Workspace"):
        if f.get("pub") and not f.get("impl_trait") and f["argc"] >= 1:
            t = ctx.types[f["locals"][1][0]]
            if t["k"] == "ref" and t["ty"] == ctx.adt("Workspace"):
                out.append(f)
    return out


class Outcome:
    """how a method may end: the state, the start it came from, the list and index afterwards, the result"""

    def __init__(self, I, s, f, st, L, j, ret, a):
        self.I, self.s, self.f, self.st, self.L, self.j, self.ret, self.a = I, s, f, st, L, j, ret, a

    def field(self, b, k):
        return bfield(self.s, self.I, self.st, b, k)

    def at(self, m):
        return self.I.seq_at(self.st, self.L, m)

    def fuzzy(self):
        return bool(self.st.unk or taint(self.L) or any(taint(c) for c in self.st.pc))


def outcomes(ctx, obs, f, empty, report=True, pre=None, args=None):
    """all the ways a workspace method may end when started on a coherent workspace"""
    I, st0, a, outs, s = run(ctx, obs, f, empty, pre=pre, args=args)
    r = []
    sink = obs if report else Obs(obs.prop)
    for o in outs:
        if o[0] != "ret":
            continue
        for s2, L, j in views(sink, I, s, f, o):
            r.append(Outcome(I, s, f, s2, L, j, o[2], a))
    return r, outs


def without(o, m):
    """the list without its element at m"""
    I, st = o.I, o.st
    n = I.seq_len(o.L)
    return I.seq_cat(st, I.seq_slice(st, o.L, Z0, m), I.seq_slice(st, o.L, add(m, I1), n))


def result_cases(I, st, v):
    """[(state, ok?, payload)] of a Result"""
    v = deep_val(I, st, v)
    if v.op == "adt":
        return [(st, v.args[1] == 0, v.args[2] if len(v.args) > 2 else None)]
    out = []
    for i in (0, 1):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            out.append((s2, i == 0, T("vf", v, i, 0)))
    return out


def strip(v):
    while v.op in ("deref", "vref") and v.args and isinstance(v.args[0], Term):
        v = v.args[0]
    return v


def deref_all(I, st, v):
    v = I.val(st, v)
    while True:
        if v.op == "vref":
            v = I.val(st, v.args[0])
        elif v.op == "deref":
            v = v.args[0]
        elif v.op == "ref":
            v = I.val(st, I.read(st, v.args[0], tuple(v.args[1:])))
        else:
            return v
