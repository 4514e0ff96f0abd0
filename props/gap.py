"""The text store below its interface: bytes with a gap. The representation is read off the function that
prints it, so that only what it means matters, not how its fields are called."""
from .common import *
from .buf import Z0, I1
from absint.interp import Interp
from absint.world import coff, coff_cases
from absint import models
from absint.models import app, SOME, NONE
from absint.terms import *

NAME = "gap_buffer::GapBuffer"


def rebuild(I, st, t):
    """bring a sequence back to normal form after a variable in it was replaced"""
    if not isinstance(t, Term) or not t.args:
        return t
    if t.op == "cat":
        return I.seq_cat(st, *[rebuild(I, st, p) for p in t.args])
    if t.op == "sl":
        return I.seq_slice(st, rebuild(I, st, t.args[0]), t.args[1], t.args[2])
    if t.op == "el":
        return T("el", rebuild(I, st, t.args[0]))
    if t.op == "at":
        return I.seq_at(st, rebuild(I, st, t.args[0]), t.args[1])
    return t


class GapWorld(Interp):
    lay = None

    def __init__(self, ctx, prims=None):
        super().__init__(ctx.dump, prims, models)
        self.opt_usize = self.ty_by_s.get("std::option::Option<usize>")

    def closed_form(self, S0, st, info, lv, init, k, k0, step, others):
        r = super().closed_form(S0, st, info, lv, init, k, k0, step, others)
        if r is None and self.lay is not None:
            r = self.shifted(S0, st, info, lv, init, k, k0, step)
        return r

    def shifted(self, S0, st, info, lv, init, k, k0, step):
        """bytes moved across the gap one at a time: the content stays the same while the gap moves along"""
        path = info["lvs"][lv][0]
        v = S0.store.get(path[0])
        if v is None or v.op != "adt" or len(path) != 2 or path[1] - 2 != self.lay["data"]:
            return None
        p0, G = v.args[2 + self.lay["start"]], self.lay["len"](v)
        n0 = self.seq_len(init)
        try:
            C = self.seq_cat(st, self.seq_slice(S0, init, Z0, p0), self.seq_slice(S0, init, add(p0, G), n0))
        except Split:
            return None
        for sg in (1, -1):
            pk = add(p0, scale(sub(k, k0), sg))
            J = T("sl", T("gapbytes", lv), Z0, G)
            ok = bool(info["transitions"])
            for t in info["transitions"]:
                s = t["state"]
                try:
                    n = I_len = self.seq_len(C)
                    Dk = self.seq_cat(s, self.seq_slice(s, C, Z0, pk), J, self.seq_slice(s, C, pk, n))
                    nx = rebuild(self, s, subst(t["next"][lv], {lv: Dk}))
                    p2 = add(pk, T("int", sg * step))
                    a = self.seq_cat(s, self.seq_slice(s, nx, Z0, p2), self.seq_slice(s, nx, add(p2, G), self.seq_len(nx)))
                    if not (s.facts.decide(le(Z0, p2)) is True and s.facts.decide(le(p2, n)) is True and equal(self, s, self.seq_slice(s, nx, Z0, p2), self.seq_slice(s, C, Z0, p2)) is True and equal(self, s, a, C) is True and s.facts.entails_eq0(sub(self.seq_len(nx), self.seq_len(Dk)))):
                        ok = False
                except Split:
                    ok = False
                if not ok:
                    break
            if ok:
                try:
                    return self.seq_cat(st, self.seq_slice(st, C, Z0, pk), J, self.seq_slice(st, C, pk, self.seq_len(C)))
                except Split:
                    return None
        return None


def layout(ctx):
    """which field holds the bytes, where the gap starts and how long it is"""
    if hasattr(ctx, "_lgap"):
        return ctx._lgap
    ctx._lgap = None
    tid = ctx.adt(NAME)
    f = ctx.method("GapBuffer", "fmt", "Display")
    if tid is None or f is None:
        return None
    c = ctx.field_by(tid, lambda n, t: t["s"] == "std::vec::Vec<u8>")
    nums = ctx.field_by(tid, lambda n, t: t["s"] == "usize")
    if len(c) != 1 or len(nums) != 2:
        return None
    # the values printed: everything but a gap
    I = GapWorld(ctx)
    I2, st0, a, outs = ctx.run(f, I)
    v = I.force(st0, I.val(st0, a[0]))
    D = I.project(st0, v, ("f", c[0]))
    x = [I.project(st0, v, ("f", i)) for i in nums]
    n = I.seq_len(D)
    for o in outs:
        if o[0] != "ret":
            continue
        t = printed(I, o[1], a[1])
        if t is None:
            continue
        for s, l in ((0, 1), (1, 0)):
            for kind, hi in (("length", add(x[s], x[l])), ("end", x[l])):
                try:
                    want = I.seq_cat(o[1], I.seq_slice(o[1], D, Z0, x[s]), I.seq_slice(o[1], D, hi, n))
                except Split:
                    continue
                if equal(I, o[1], t, want) is True:
                    st, en = nums[s], nums[l]
                    ctx._lgap = roles(tid, c[0], st, en, kind)
                    return ctx._lgap
    return None


def roles(tid, data, st, en, kind):
    lay = {"tid": tid, "data": data, "start": st, "other": en, "kind": kind}
    if kind == "length":
        lay["len"] = lambda v, en=en: v.args[2 + en]
    else:
        lay["len"] = lambda v, en=en, st=st: sub(v.args[2 + en], v.args[2 + st])
    return lay


def layouts(ctx):
    """every way to read the store's fields"""
    tid = ctx.adt(NAME)
    if tid is None:
        return []
    c = ctx.field_by(tid, lambda n, t: t["s"] == "std::vec::Vec<u8>")
    nums = ctx.field_by(tid, lambda n, t: t["s"] == "usize")
    if len(c) != 1 or len(nums) != 2:
        return []
    return [roles(tid, c[0], nums[s], nums[1 - s], kind) for s in (0, 1) for kind in ("length", "end")]


def printed(I, st, fmt=None):
    """what was written to a formatter"""
    ws = [e.d["seq"] for e in st.events if e.kind == "fmtwrite"]
    return I.seq_cat(st, *ws) if ws else T("nil")


class Store:
    """an arbitrary text store"""

    def __init__(self, ctx, full):
        self.ctx, self.full, self.lay = ctx, full, layout(ctx)

    def setup(self, I, st, a):
        lay = self.lay
        u = I.ty_by_s["usize"]
        ref = a[0]
        self.root, self.proj = ref.args[0], tuple(ref.args[1:])
        C = T("sym", "content", I.ty_by_s.get("str"))
        J = T("sym", "gapbytes", None)
        g, L = T("sym", "gap_at", u), T("sym", "gap_len", u)
        n = I.seq_len(C)
        for c in (le(Z0, g), le(g, n), le(Z0, L), le(Z0, n)):
            st.facts.assume(c)
        st.facts.assume(ieq(T("len", J), L))
        D = I.mkcat(st, [T("sl", C, Z0, g), T("sl", J, Z0, L), T("sl", C, g, n)])
        args = [None] * 3
        args[lay["data"]], args[lay["start"]] = D, g
        args[lay["other"]] = L if lay["kind"] == "length" else add(g, L)
        v = T("adt", I.types[lay["tid"]]["path"], 0, *args)
        I.write(st, self.root, self.proj, v)
        if self.full:
            st.store[("C", self.root, self.proj + (("f", lay["data"]),))] = add(n, L)
        self.C, self.g, self.L, self.n, self.D = C, g, L, n, D
        I.lay = lay
        self.v0 = v

    def now(self, I, st):
        """(content, gap start, gap length, all bytes) in a state; None where not understood"""
        v = I.force(st, I.read(st, self.root, self.proj))
        return parts_of(I, st, self.lay, v)

    def capacity(self, I, st):
        return st.store.get(("C", self.root, self.proj + (("f", self.lay["data"]),)))


def parts_of(I, st, lay, v):
    if v.op != "adt":
        return None
    D, g, L = v.args[2 + lay["data"]], v.args[2 + lay["start"]], lay["len"](v)
    return D, g, L


def contents(I, st, D, g, L):
    return I.seq_cat(st, I.seq_slice(st, D, Z0, g), I.seq_slice(st, D, add(g, L), I.seq_len(D)))


def splitting(st, fn, depth=8):
    """[(state, fn(state))], with the cases told apart that fn needs to know"""
    try:
        return [(st, fn(st))]
    except Split as e:
        if not depth:
            raise
        out = []
        for c in e.args:
            for s2 in assume_all(st, c):
                out.extend(splitting(s2, fn, depth - 1))
        return out
