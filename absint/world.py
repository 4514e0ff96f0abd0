"""The text-level view of the crate: everything above the gap buffer is analysed against the gap
buffer's contract (a text, and positions that resolve to offsets of it); the contract itself is what
the gap buffer's own functions are checked against."""
from .terms import *
from .interp import Interp, State, canon, Split, Budget
from . import models
from .models import app, SOME, NONE, OPT, rd, place_of, deep

GB = "buffer::gap_buffer::GapBuffer"
Z = I(0)


def pos_parts(I_, st, p):
    p = deep(I_, st, p)
    if p.op == "adt" and len(p.args) == 4:
        return p.args[2], p.args[3]
    return T("fld", p, 0), T("fld", p, 1)


def coff(I_, st, text, line, off):
    """the byte offset a position resolves to: an Option"""
    if st.facts.decide(ieq(line, Z)) is True:
        line = Z
    if st.facts.decide(ieq(off, Z)) is True:
        off = Z
    if line is Z and off is Z:
        return SOME(Z)
    v = T("coff", text, line, off)
    I_.enum_ty.setdefault(v, I_.opt_usize)
    return v


def coff_cases(I_, st, text, line, off):
    v = I_.force(st, coff(I_, st, text, line, off))
    if v.op == "adt":
        return [(st, v.args[2] if v.args[1] == 1 else None)]
    out = []
    nowhere = False
    # when a line does not exist, no line after it does
    for u, i in list(st.facts.variants.items()) + [(u, 0) for u, ns in st.facts.notvar.items() if 1 in ns]:
        if i == 0 and u.op == "coff" and len(u.args) == 3 and u.args[0] is text and u.args[2] is Z and st.facts.decide(le(u.args[1], line)) is True:
            nowhere = True
    for i in (0,) if nowhere else (1, 0):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            x = None
            if i == 1:
                x = T("vf", v, 1, 0)
                s2.facts.assume(le(x, I_.seq_len(text)))
            out.append((s2, x))
    return out


def monotone(I_, st, text, a, b):
    """positions in order resolve to offsets in order; a, b: (line, off, offset)"""
    (l1, o1, x1), (l2, o2, x2) = a, b
    if st.facts.decide(lt(l1, l2)) or (st.facts.decide(ieq(l1, l2)) and st.facts.decide(le(o1, o2))):
        st.facts.assume(le(x1, x2))
        return True
    return False


class World(Interp):
    """buffer-level interpretation"""

    def __init__(self, ctx, opaque_ops=False, **kw):
        self.ctx = ctx
        self.opaque_ops = opaque_ops
        super().__init__(ctx.dump, dict(PRIMS), models, **kw)
        self.opt_usize = self.ty_by_s.get("std::option::Option<usize>")

    def sym_struct(self, st, tid, name, over, depth):
        if self.types[tid]["path"] == GB:
            return T("gb", T("sym", name + ".text", self.ty_by_s["std::string::String"]))
        return None

    def project(self, st, v, p):
        if v.op == "gb":
            st.imprecise("gap buffer internals used outside the gap buffer")
            return T("unk", "gap buffer field")
        if p[0] == "cell" and v.op == "rcval":
            return T("gb", T("textof", v.args[0]))
        return super().project(st, v, p)

    def update(self, st, v, proj, val):
        if v is not None and v.op == "gb" and proj:
            st.imprecise("gap buffer internals used outside the gap buffer")
            return T("gb", T("unk", "gap buffer field"))
        return super().update(st, v, proj, val)

    def virtual_call(self, st, ct, args, at, rt):
        meth = ct["method"]
        recv = rd(self, st, args[0])
        recv = self.force(st, recv)
        if recv.op == "adt" and not (self.opaque_ops and meth in ("run", "reverse", "clone_operation")):
            for i, t in enumerate(self.types):
                if t and t["k"] == "adt" and t.get("path") == recv.args[0]:
                    key = self.impl_of(i, canon(ct["name"]))
                    if key and key in self.fns:
                        root, proj = place_of(self, st, args[0])
                        return self.call_key(st, key, [self.mkref(root, proj, st)] + list(args[1:]))
        if meth == "clone_operation":
            st.ev("virtual", method=meth, recv=recv, args=())
            return T("box", recv)
        if meth in ("run", "reverse") and len(args) == 2:
            # an arbitrary operation: it changes the buffer's text and cursor, nothing else (the
            # frame condition every implementation is checked against)
            root, proj = place_of(self, st, args[1])
            buf = self.read(st, root, proj)
            st.ev("virtual", method=meth, recv=recv, args=tuple(args[1:]), borrows=dict(st.borrows), buf=self.norm(st, buf))
            st.events = st.events
            self.apply_op(st, root, proj, buf, meth, recv)
            return UNIT
        return super().virtual_call(st, ct, args, at, rt)

    def apply_op(self, st, root, proj, buf, meth, recv):
        lay = self.layout()
        if lay is None or buf.op != "adt":
            st.imprecise("buffer layout")
            return
        data = self.project(st, buf, ("f", lay["data"]))
        if data.op != "rc":
            st.imprecise("buffer storage")
            return
        text = self.read(st, data.args[0], (("cell",),))
        new = T("gb", app("op:" + meth, recv, text.args[0] if text.op == "gb" else text))
        self.write(st, data.args[0], (("cell",),), new)
        cur = self.project(st, buf, ("f", lay["cursor"]))
        if cur.op == "adt":
            c = self.ctx.layout_cursor()
            p = T("unkpos", self.uid())
            pa = cur.args[2 + c["position"]]
            if pa.op == "adt":
                np = T("adt", pa.args[0], 0, *[T("sym", "moved%d.%d" % (self.uid(), i), None) for i in range(len(pa.args) - 2)])
                self.write(st, root, proj + (("f", lay["cursor"]), ("f", c["position"])), np)
                st.events[-1].d["moved"] = np
        # what the operation holds may change too (it records what it needs for its inverse)

    def layout(self):
        return self.ctx.layout_buffer()


def gb_text(I_, st, a):
    root, proj = place_of(I_, st, a)
    v = I_.read(st, root, proj)
    if v.op == "gb":
        return root, proj, v.args[0]
    st.imprecise("gap buffer value")
    return root, proj, T("unk", "text", v)


def set_text(I_, st, root, proj, t, kind, **d):
    I_.write(st, root, proj, T("gb", t))
    st.ev("text", how=kind, root=root, new=t, **d)


def p_new(I_, st, args, ct):
    return T("gb", rd(I_, st, args[0]))


def p_to_string(I_, st, args, ct):
    _, _, t = gb_text(I_, st, args[0])
    models.fmt_append(I_, st, args[1], t)
    return models.OK(UNIT)


def p_in_bounds(I_, st, args, ct):
    _, _, t = gb_text(I_, st, args[0])
    l, o = pos_parts(I_, st, args[1])
    v = I_.force(st, coff(I_, st, t, l, o))
    if v.op == "adt":
        return B(v.args[1] == 1)
    return T("isvar", v, 1)


def p_content_offset(I_, st, args, ct):
    _, _, t = gb_text(I_, st, args[0])
    l, o = pos_parts(I_, st, args[1])
    v = coff(I_, st, t, l, o)
    out = []
    for s2, x in coff_cases(I_, st, t, l, o):
        out.append(("ret", s2, SOME(x) if x is not None else NONE))
    return out


def p_insert(I_, st, args, ct):
    root, proj, t = gb_text(I_, st, args[0])
    s = rd(I_, st, args[1])
    l, o = pos_parts(I_, st, args[2])
    out = []
    for s2, x in coff_cases(I_, st, t, l, o):
        if x is not None:
            n = I_.seq_len(t)
            set_text(I_, s2, root, proj, I_.seq_cat(s2, I_.seq_slice(s2, t, Z, x), s, I_.seq_slice(s2, t, x, n)), "insert", line=l, off=o)
        else:
            set_text(I_, s2, root, proj, t, "insert", line=l, off=o)
        out.append(("ret", s2, UNIT))
    return out


def range_parts(I_, st, r):
    r = deep(I_, st, r)
    if r.op == "adt" and len(r.args) == 4:
        return pos_parts(I_, st, r.args[2]) + pos_parts(I_, st, r.args[3])
    raise Budget("range value")


def assume_ordered(I_, st, l1, o1, l2, o2):
    """ranges are normalised (their constructor is checked to establish it)"""
    return disj(lt(l1, l2), conj(ieq(l1, l2), le(o1, o2)))


def p_read(I_, st, args, ct):
    _, _, t = gb_text(I_, st, args[0])
    l1, o1, l2, o2 = range_parts(I_, st, args[1])
    out = []
    for s2, x in coff_cases(I_, st, t, l1, o1):
        for s3, y in coff_cases(I_, s2, t, l2, o2):
            if x is None or y is None:
                out.append(("ret", s3, NONE))
            else:
                s3.facts.assume(le(x, y))
                out.append(("ret", s3, SOME(I_.seq_slice(s3, t, x, y))))
    return out


def p_delete(I_, st, args, ct):
    root, proj, t = gb_text(I_, st, args[0])
    l1, o1, l2, o2 = range_parts(I_, st, args[1])
    out = []
    n = I_.seq_len(t)
    for s2, x in coff_cases(I_, st, t, l1, o1):
        if x is None:
            set_text(I_, s2, root, proj, t, "delete", line=l1, off=o1)
            out.append(("ret", s2, NONE))
            continue
        for s3, y in coff_cases(I_, s2, t, l2, o2):
            ends = [(s3, y)]
            if y is None:
                ends = [(s4, n if z is None else z) for s4, z in coff_cases(I_, s3, t, add(l2, I(1)), Z)]
            for s4, z in ends:
                s4.facts.assume(le(x, z))
                cut = I_.seq_slice(s4, t, x, z)
                set_text(I_, s4, root, proj, I_.seq_cat(s4, I_.seq_slice(s4, t, Z, x), I_.seq_slice(s4, t, z, n)), "delete", line=l1, off=o1)
                out.append(("ret", s4, SOME(cut)))
    return out


def p_insert_at(I_, st, args, ct):
    root, proj, t = gb_text(I_, st, args[0])
    s = rd(I_, st, args[1])
    x = args[2]
    n = I_.seq_len(t)
    if st.facts.decide(le(x, n)) is not True:
        st.ev("need", cond=le(x, n), why="insert_at offset within the text")
        st.facts.assume(le(x, n))
    set_text(I_, st, root, proj, I_.seq_cat(st, I_.seq_slice(st, t, Z, x), s, I_.seq_slice(st, t, x, n)), "insert_at", off=x)
    return UNIT


def p_delete_at(I_, st, args, ct):
    root, proj, t = gb_text(I_, st, args[0])
    x, k = args[1], args[2]
    n = I_.seq_len(t)
    if st.facts.decide(le(add(x, k), n)) is not True:
        st.ev("need", cond=le(add(x, k), n), why="delete_at range within the text")
        st.facts.assume(le(add(x, k), n))
    set_text(I_, st, root, proj, I_.seq_cat(st, I_.seq_slice(st, t, Z, x), I_.seq_slice(st, t, add(x, k), n)), "delete_at", off=x)
    return UNIT


PRIMS = {
    GB + "::new": p_new,
    "<%s as std::fmt::Display>::fmt" % GB: p_to_string,
    GB + "::in_bounds": p_in_bounds,
    GB + "::content_offset": p_content_offset,
    GB + "::insert": p_insert,
    GB + "::read": p_read,
    GB + "::delete": p_delete,
    GB + "::insert_at": p_insert_at,
    GB + "::delete_at": p_delete_at,
}
