"""Abstract semantics of the functions of the standard library and of the dependencies that the
analysed crate (or a plausible edit of it) calls.  A function that is not listed here and whose MIR
is not available is "unmodelled": its result is an `unk` term, which makes everything that depends on
it undecided."""
from .terms import *
from .interp import Split, Budget, canon

OPT, RES, ORD = "std::option::Option", "std::result::Result", "std::cmp::Ordering"
NONE = T("adt", OPT, 0)


def SOME(x):
    return T("adt", OPT, 1, x)


def OK(x):
    return T("adt", RES, 0, x)


def ERR(x):
    return T("adt", RES, 1, x)


def ordv(c):
    return T("adt", ORD, {"<": 0, "=": 1, ">": 2}[c])


def app(name, *args):
    return T("app", name, *args)


TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers

def place_of(I, st, a):
    """the place a reference (chain) designates"""
    n = 0
    root, proj = I.deref_target(st, a)
    while n < 10:
        n += 1
        v = I.read(st, root, proj)
        if v.op in ("ref", "vref"):
            root, proj = I.deref_target(st, v)
        elif v.op == "guard":
            root, proj = I.deref_target(st, v.args[1])
        elif v.op == "box":
            proj = proj + (("box",),)
        else:
            break
    return root, proj


def rd(I, st, a):
    """value behind references"""
    return I.val(st, a)


def seqv(I, st, a):
    v = I.val(st, a)
    return v


def wr(I, st, a, v):
    root, proj = place_of(I, st, a)
    I.write_hook(st, root, proj, v)
    I.write(st, root, proj, v)


def elem_ref(I, st, root, proj, i):
    return I.mkref(root, proj + (("idx", i),), st)


def panic(st, why):
    st.ev("panic", why=why)
    return ("panic", st, why)


def checked(I, st, cond, why, ok):
    """[outcome] : ok(st) when cond, panic otherwise"""
    out = []
    for s2, b in I.branch(st, cond):
        if b:
            r = ok(s2)
            out.extend(r if isinstance(r, list) else [("ret", s2, r)])
        else:
            out.append(panic(s2, why))
    return out


def fork(I, st, cond):
    return I.branch(st, cond)


def opt_cases(I, st, v):
    """[(state, payload or None)] of an Option value"""
    v = I.force(st, v)
    if v.op == "adt":
        return [(st, v.args[2] if v.args[1] == 1 else None)]
    out = []
    if v not in I.enum_ty:
        I.enum_ty[v] = None
    for i in (0, 1):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            out.append((s2, None if i == 0 else I.project(s2, T("dc", v, 1), ("f", 0))))
    return out


def as_char_pat(I, st, p, multi=False):
    """a char / &str pattern as a sequence term, or None; sets of characters only where several will do"""
    p = I.val(st, p)
    if p.op == "int":
        return T("str", chr(p.args[0]))
    cs = None
    if p.op == "closure":
        cs = chars_accepted(I, st, p)
    elif multi or p.op == "vref":
        q = I.val(st, rd(I, st, p)) if p.op in ("ref", "vref") else p
        ps = I.seq_pieces(q) if q.op in ("cat", "el", "sl") else ()
        if ps and all(x.op == "el" and x.args[0].op == "int" for x in ps):
            cs = {x.args[0].args[0] for x in ps}
    if cs is not None and len(cs) == 1:
        return T("str", chr(next(iter(cs))))
    if cs is not None:
        return app("charset", *[I_(c) for c in sorted(cs)]) if multi and cs else None
    if p.op in ("str", "sym", "cat", "sl", "vf", "fld", "app", "at"):
        return p
    return None


def chars_accepted(I, st, f):
    """the characters a predicate holds for, if they are finitely many listed ones"""
    c = T("sym", "pattern character")
    s0 = st.copy()
    n = len(s0.pc)
    fr = ("T", I.uid())
    s0.store[fr] = f
    outs = []
    for r in I.apply(s0, T("ref", fr), [c]):
        if r[0] != "ret" or r[1].unk:
            return None
        for s2, b in I.branch(r[1], r[2]):
            outs.append((s2, b))
    known = {z for s2, _ in outs for q in s2.pc[n:] if c in subterms(q) for y in subterms(q) if y.op in ("int", "lin") for z in [y.args[0]] if isinstance(z, int)}
    known |= {-k for k in known} | {abs(k) + 1 for k in known} | {abs(k) - 1 for k in known}

    def holds(conds):
        got = set()
        for s2, b in outs:
            s3 = s2.copy()
            if all(s3.assume(q) for q in conds):
                got.add(b)
        return got
    rest = [T("not", ieq(c, I_(k))) for k in known]
    if holds(rest) != {False}:
        return None
    cs = set()
    for k in known:
        if 0 <= k < 0x110000:
            h = holds([ieq(c, I_(k))])
            if h == {True}:
                cs.add(k)
            elif h != {False}:
                return None
    return cs


def graphemes(s, ext):
    return T("graphemes", s, ext)


def is_nl_char(c):
    return ieq(c, I(10))


NLGRAPH = "gcls"


def gcls(g):
    """class of a grapheme cluster: 0 = LF, 1 = CR LF, >=2 anything else"""
    return T("gcls", g)


def boundary(I, st, s, a):
    """whether a character begins (or the text ends) at an offset, as a condition"""
    ps = I.seq_pieces(s)
    base, off = (ps[0].args[0], add(ps[0].args[1], a)) if len(ps) == 1 and ps[0].op == "sl" else (s, a)
    if begins(I, st, base, off) or begins(I, st, s, a):
        return TRUE
    return app("char_boundary", base, off)


def begins(I, st, base, off):
    """an offset at which a character of a text is known to begin or end"""
    if st.facts.entails_eq0(off) or st.facts.entails_eq0(sub(off, I.seq_len(base))):
        return True
    if base.op != "str" and st.facts.decide(app("ends_with", base, T("str", "\n"))) is True and st.facts.entails_eq0(sub(add(off, I_(1)), I.seq_len(base))):
        return True
    co, ps = parts(off)
    for x in ps:
        rest = sub(off, x)
        if x.op in ("coff", "goff") and len(x.args) == 2 and x.args[0].args[0] is base:
            e = T("at", x.args[0], x.args[1])
            if rest is I_(0) or rest is (T("len_utf8", e) if x.op == "coff" else T("len", e)):
                return True
        if x.op == "vf" and x.args[0].op == "app" and x.args[0].args[0] in ("find", "rfind") and x.args[0].args[1] is base:
            p = x.args[0].args[2]
            if rest is I_(0) or isinstance(p, Term) and p.op == "str" and rest is I_(len(p.args[0].encode())):
                return True
    return False


def is_grapheme(v):
    return v.op == "at" and v.args[0].op == "graphemes"


def str_test(I, st, kind, s, p):
    """ends_with / starts_with / contains"""
    if s.op == "str" and p.op == "str":
        a, b = s.args[0], p.args[0]
        return B({"ends_with": a.endswith(b), "starts_with": a.startswith(b), "contains": b in a}[kind])
    if is_grapheme(s) and p.op == "str" and p.args[0] == "\n" and s.args[0].args[1] is TRUE and kind in ("ends_with", "contains"):
        return le(gcls(s), I_(1))
    if is_grapheme(s) and p.op == "str" and p.args[0] == "\n" and kind == "starts_with":
        return ieq(gcls(s), I_(0))
    if s.op == "nil":
        return FALSE if p.op == "str" and p.args[0] else app(kind, s, p)
    if kind in ("starts_with", "ends_with") and p.op not in ("str", "int", "bytes"):
        n, m = I.seq_len(s), I.seq_len(p)
        fits = le(m, n)
        if st.facts.decide(fits) is False:
            return FALSE
        try:
            part = I.seq_slice(st, s, I_(0), m) if kind == "starts_with" else I.seq_slice(st, s, sub(n, m), n)
        except Split:
            return app(kind, s, p)
        return conj(fits, T("eq", *sorted((p, part))))
    if p.op == "str" and len(p.args[0]) == 1 and ord(p.args[0]) < 128 and kind in ("ends_with", "contains"):
        # what is known about where the character is first found
        ps = I.seq_pieces(s)
        base, lo, hi = ps[0].args if len(ps) == 1 and ps[0].op == "sl" else (s, I_(0), I.seq_len(s))
        for f, n in list(st.facts.variants.items()):
            if f.op != "app" or f.args[0] != "find" or len(f.args) != 3 or f.args[2] is not p:
                continue
            qs = I.seq_pieces(f.args[1])
            b2, l2, h2 = qs[0].args if len(qs) == 1 and qs[0].op == "sl" else (f.args[1], I_(0), I.seq_len(f.args[1]))
            if b2 is not base:
                continue
            d = st.facts.decide
            if n == 1:
                end = add(add(l2, T("vf", f, 1, 0)), I_(1))
                if d(lt(lo, end)) is True and (d(ieq(end, hi)) is True or kind == "contains" and d(le(end, hi)) is True):
                    return TRUE
                if d(le(l2, lo)) is True and d(lt(hi, end)) is True:
                    return FALSE
            elif d(le(l2, lo)) is True and d(le(hi, h2)) is True:
                return FALSE
    return app(kind, s, p)


I_ = I  # the integer constructor; `I` is shadowed by the interpreter below


# ------------------------------------------------------------------ iterators
# T('it', 'base', desc, lo, hi): positions lo..hi of a described sequence

def d_elems(s):
    return T("d_elems", s)


def d_vrefs(s):
    return T("d_vrefs", s)


def d_refs(root, proj, mut):
    return T("d_refs", root, proj, mut)


D_RANGE = T("d_range")


def base_it(I, desc, lo, hi):
    return T("it", "base", desc, lo, hi)


def it_over(I, st, seq, vrefs=True):
    return base_it(I, (d_vrefs if vrefs else d_elems)(seq), I_(0), I.seq_len(seq))


def elem_of(I, st, desc, k):
    if desc.op == "d_range":
        return k
    if desc.op == "d_elems":
        return I.seq_at(st, desc.args[0], k)
    if desc.op == "d_vrefs":
        return T("vref", I.seq_at(st, desc.args[0], k))
    if desc.op == "d_refs":
        return elem_ref(I, st, desc.args[0], desc.args[1], k)
    if desc.op == "d_gidx":
        g = desc.args[0]
        n = T("len", T("at", g, k))
        if st.facts.decide(lt(k, T("len", g))) is True:
            st.facts.assume(le(add(goff(g, k), n), I.seq_len(g.args[0])))
            st.facts.assume(le(I_(1), n))
        return T("tuple", goff(g, k), T("vref", T("at", g, k)))
    if desc.op == "d_cidx":
        c = desc.args[0]
        if st.facts.decide(lt(k, T("len", c))) is True:
            st.facts.assume(le(add(coff(c, k), T("len_utf8", T("at", c, k))), I.seq_len(c.args[0])))
        return T("tuple", coff(c, k), T("at", c, k))
    if desc.op == "d_midx":
        c = desc.args[0]
        o = app("match_offset", c, k)
        if st.facts.decide(lt(k, T("len", c))) is True:
            st.facts.assume(le(I_(0), o))
            st.facts.assume(le(add(o, I.seq_len(T("at", c, k))), I.seq_len(c.args[0])))
        return T("tuple", o, T("vref", T("at", c, k)))
    raise Budget("iterator element")


def goff(g, k):
    if k is I_(0):
        return I_(0)
    return T("goff", g, k)


def coff(c, k):
    if k is I_(0):
        return I_(0)
    return T("coff", c, k)


def to_iter(I, st, v, ct=None, at=None):
    """IntoIterator::into_iter on a value; None when unknown"""
    if v.op == "it":
        return v
    if v.op == "adt" and v.args[0] == "std::ops::Range":
        return base_it(I, D_RANGE, v.args[2], v.args[3])
    if v.op == "adt" and v.args[0] == "std::ops::RangeInclusive":
        return base_it(I, D_RANGE, v.args[2], add(v.args[3], I_(1)))
    if v.op == "adt" and v.args[0] == OPT:
        s = T("nil") if v.args[1] == 0 else I.mkcat(st, [T("el", v.args[2])])
        return base_it(I, d_elems(s), I_(0), I.seq_len(s))
    if v.op in ("ref", "vref"):
        root, proj = I.deref_target(st, v)
        inner = I.read(st, root, proj)
        n = 0
        while inner.op in ("ref", "vref") and n < 5:
            root, proj = I.deref_target(st, inner)
            inner = I.read(st, root, proj)
            n += 1
        if inner.op == "it":
            return T("it", "byref", root, proj)
        if is_seq_like(I, inner):
            n = I.seq_len(inner)
            if root[0] == "V":
                return base_it(I, d_vrefs(inner), I_(0), n)
            return base_it(I, d_refs(root, proj, True), I_(0), n)
        return None
    if is_seq_like(I, v):
        return base_it(I, d_elems(v), I_(0), I.seq_len(v))
    return None


def is_seq_like(I, v):
    if v.op in ("cat", "sl", "nil", "str", "bytes", "rep", "comp", "rev", "derefs", "chars", "graphemes", "lines"):
        return True
    tid = None
    if v.op == "sym":
        tid = v.args[1]
    if tid is not None:
        t = I.types[tid]
        return t["k"] in ("slice", "array", "str") or t.get("path") in ("std::vec::Vec", "std::string::String")
    return v.op in ("fld", "vf", "at", "app", "lv", "deref", "unbox", "rcval", "cellv", "param")


def it_len(it):
    """exact number of elements, or None"""
    k = it.args[0]
    if k == "base":
        return sub(it.args[3], it.args[2])
    if k in ("rev", "enum", "cloned", "map", "inspect"):
        return it_len(it.args[1])
    if k == "chain":
        a, b = it_len(it.args[1]), it_len(it.args[2])
        return add(a, b) if a is not None and b is not None else None
    return None


def back_it(it):
    """can be stepped from the back"""
    return it.args[0] == "base" or (it.args[0] in ("map", "filter", "filter_map", "cloned", "rev") and back_it(it.args[1]))


def step(I, st, it, back=False):
    """one step of an iterator: [(state, it', kind, element)] with kind in elem/skip/end; may also
    contain ('panic', state, why) outcomes"""
    k = it.args[0]
    if k == "base":
        _, desc, lo, hi = it.args
        out = []
        for s2, b in I.branch(st, lt(lo, hi)):
            if not b:
                out.append((s2, it, "end", None))
            elif back:
                h = sub(hi, I_(1))
                out.append((s2, T("it", "base", desc, lo, h), "elem", elem_of(I, s2, desc, h)))
            else:
                out.append((s2, T("it", "base", desc, add(lo, I_(1)), hi), "elem", elem_of(I, s2, desc, lo)))
        return out
    if k == "byref":
        root, proj = it.args[1], it.args[2]
        inner = I.read(st, root, proj)
        out = []
        for o in step(I, st, inner, back):
            if o[0] == "panic":
                out.append(o)
                continue
            s2, it2, kind, e = o
            I.write(s2, root, proj, it2)
            out.append((s2, it, kind, e))
        return out
    if k == "rev":
        return [o if o[0] == "panic" else (o[0], T("it", "rev", o[1]), o[2], o[3]) for o in step(I, st, it.args[1], not back)]
    if k == "enum":
        n = it.args[2]
        if back:
            L = it_len(it.args[1])
            if L is None:
                raise Budget("enumerate from the back")
            out = []
            for o in step(I, st, it.args[1], True):
                if o[0] == "panic":
                    out.append(o)
                else:
                    e = T("tuple", sub(add(n, L), I_(1)), o[3]) if o[2] == "elem" else None
                    out.append((o[0], T("it", "enum", o[1], n), o[2], e))
            return out
        out = []
        for o in step(I, st, it.args[1]):
            if o[0] == "panic":
                out.append(o)
            elif o[2] == "elem":
                out.append((o[0], T("it", "enum", o[1], add(n, I_(1))), "elem", T("tuple", n, o[3])))
            else:
                out.append((o[0], T("it", "enum", o[1], n), o[2], None))
        return out
    if k == "cloned":
        out = []
        for o in step(I, st, it.args[1], back):
            if o[0] == "panic":
                out.append(o)
            else:
                e = I.val(o[0], o[3]) if o[2] == "elem" else None
                out.append((o[0], T("it", "cloned", o[1]), o[2], e))
        return out
    if k in ("map", "filter", "filter_map", "take_while", "skip_while", "inspect", "map_while"):
        f = it.args[2]
        out = []
        for o in step(I, st, it.args[1], back):
            if o[0] == "panic":
                out.append(o)
                continue
            s2, i2, kind, e = o
            mk = lambda x, fv, *more: T("it", k, x, fv, *(more or it.args[3:]))
            if kind != "elem":
                out.append((s2, mk(i2, f), kind, None))
                continue
            if k == "skip_while" and it.args[3] is TRUE:
                out.append((s2, mk(i2, f, TRUE), "elem", e))
                continue
            arg = T("vref", e) if k in ("filter", "take_while", "skip_while", "inspect") else e
            fr = ("T", I.uid())
            s2.store[fr] = f
            for r in I.apply(s2, T("ref", fr), [arg]):
                if r[0] != "ret":
                    out.append(r)
                    continue
                s3, v = r[1], r[2]
                fv = s3.store.pop(fr, f)
                if k == "map":
                    out.append((s3, mk(i2, fv), "elem", v))
                elif k == "inspect":
                    out.append((s3, mk(i2, fv), "elem", e))
                elif k == "filter":
                    for s4, b in I.branch(s3, v):
                        out.append((s4, mk(i2, fv), "elem" if b else "skip", e if b else None))
                elif k in ("filter_map", "map_while"):
                    for s4, x in opt_cases(I, s3, v):
                        if x is not None:
                            out.append((s4, mk(i2, fv), "elem", x))
                        elif k == "filter_map":
                            out.append((s4, mk(i2, fv), "skip", None))
                        else:
                            out.append((s4, T("it", "empty"), "end", None))
                elif k == "take_while":
                    for s4, b in I.branch(s3, v):
                        if b:
                            out.append((s4, mk(i2, fv), "elem", e))
                        else:
                            out.append((s4, T("it", "empty"), "end", None))
                elif k == "skip_while":
                    for s4, b in I.branch(s3, v):
                        if b:
                            out.append((s4, mk(i2, fv), "skip", None))
                        else:
                            out.append((s4, mk(i2, fv, TRUE), "elem", e))
        return out
    if k == "empty":
        return [(st, it, "end", None)]
    if k == "peek":
        p = it.args[2]
        if p.op == "nopeek":
            return [o if o[0] == "panic" else (o[0], T("it", "peek", o[1], p), o[2], o[3]) for o in step(I, st, it.args[1], back)]
        nx = T("it", "peek", it.args[1], T("nopeek"))
        out = []
        for s2, x in opt_cases(I, st, p):
            out.append((s2, nx if x is not None else it, "elem" if x is not None else "end", x))
        return out
    if k == "chain":
        out = []
        a, b = (it.args[1], it.args[2]) if not back else (it.args[2], it.args[1])
        for o in step(I, st, a, back):
            if o[0] == "panic" or o[2] != "end":
                out.append(o if o[0] == "panic" else (o[0], T("it", "chain", *((o[1], b) if not back else (b, o[1]))), o[2], o[3]))
            else:
                for q in step(I, o[0], b, back):
                    out.append(q if q[0] == "panic" else (q[0], T("it", "chain", *((o[1], q[1]) if not back else (q[1], o[1]))), q[2], q[3]))
        return out
    if k == "zip":
        if back:
            raise Budget("zip from the back")
        out = []
        for o in step(I, st, it.args[1]):
            if o[0] == "panic":
                out.append(o)
            elif o[2] == "elem":
                for q in step(I, o[0], it.args[2]):
                    if q[0] == "panic":
                        out.append(q)
                    elif q[2] == "elem":
                        out.append((q[0], T("it", "zip", o[1], q[1]), "elem", T("tuple", o[3], q[3])))
                    elif q[2] == "end":
                        out.append((q[0], T("it", "zip", o[1], q[1]), "end", None))
                    else:
                        raise Budget("zip of a filtered iterator")
            elif o[2] == "skip":
                out.append((o[0], T("it", "zip", o[1], it.args[2]), "skip", None))
            else:
                out.append((o[0], T("it", "zip", o[1], it.args[2]), "end", None))
        return out
    if k == "take":
        n = it.args[2]
        out = []
        for s2, b in I.branch(st, ieq(n, I_(0))):
            if b:
                out.append((s2, it, "end", None))
            else:
                for o in step(I, s2, it.args[1], back):
                    if o[0] == "panic":
                        out.append(o)
                    else:
                        out.append((o[0], T("it", "take", o[1], sub(n, I_(1)) if o[2] == "elem" else n), o[2], o[3]))
        return out
    raise Budget("iterator " + k)


def splitting(I, st, fn):
    """run fn on a state, making the case distinctions it asks for"""
    out, work = [], [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 200:
            raise Budget("too many cases")
        try:
            out.extend(fn(s.copy()))
        except Split as sp:
            for alt in sp.alts:
                s2 = s.copy()
                if s2.assume(alt):
                    work.append(s2)
    return out


def steps(I, st, it, back=False):
    return splitting(I, st, lambda s: step(I, s, it, back))


def may_skip(it):
    if not isinstance(it, Term) or it.op != "it":
        return False
    if it.args[0] in ("filter", "filter_map", "skip_while"):
        return True
    return any(isinstance(a, Term) and may_skip(a) for a in it.args[1:])


def iterate(I, st, it, accs, body, tag, back=False):
    """Consume an iterator.  accs: {name: initial value}, kept in temporaries so that the loop
    analysis sees them.  body(state, elem, get, put) -> outcomes ('back', s) / ('exit', s, tag) /
    ('panic',..).  Returns [(kind, state, get)] with kind 'end', a tag, or a panic outcome."""
    root = ("T", I.uid())
    roots = {n: ("T", I.uid()) for n in accs}
    st.store[root] = it
    for n, v in accs.items():
        st.store[roots[n]] = v

    def get(s, n):
        return s.store[roots[n]]

    def put(s, n, v):
        s.store[roots[n]] = v

    def once(S):
        def f(s):
            out = []
            for o in step(I, s, s.store[root], back):
                if o[0] == "panic":
                    out.append(o)
                    continue
                s2, it2, kind, e = o
                s2.store[root] = it2
                if kind == "end":
                    out.append(("exit", s2, "end"))
                elif kind == "skip":
                    out.append(("back", s2))
                else:
                    out.extend(body(s2, e, get, put))
            return out
        return splitting(I, S, f)

    res = []
    n = it_len(it)
    if n is not None and n.op == "int" and n.args[0] <= 1:
        # at most one element: nothing to generalise
        work, ends = [st], []
        for _ in range(n.args[0] + 1):
            outs = [o for s in work for o in once(s)]
            ends += [o for o in outs if o[0] != "back"]
            work = [o[1] for o in outs if o[0] == "back"]
        outs = ends if not work else I.fixloop(st, once, tag)
    else:
        outs = I.fixloop(st, once, tag)
    for o in outs:
        if o[0] == "exit":
            s2 = o[1]
            vals = {n: s2.store.pop(r, None) for n, r in roots.items()}
            it2 = s2.store.pop(root, None)
            res.append((o[2], s2, vals, it2))
        else:
            res.append(o)
    return res


def lam_apply(I, s, f, args):
    fr = ("T", I.uid())
    s.store[fr] = f
    out = []
    for o in I.apply(s, T("ref", fr), args):
        if o[0] == "ret":
            o[1].store.pop(fr, None)
        out.append(o)
    return out


# -- Iterator methods

def it_arg(I, st, a, at=None):
    """(iterator value, writeback) for a by-value or by-&mut receiver"""
    if a.op in ("ref", "vref"):
        root, proj = place_of(I, st, a)
        v = I.read(st, root, proj)
        if v.op == "it":
            return v, (root, proj)
        return None, None
    if a.op == "it":
        return a, None
    v = to_iter(I, st, a)
    return v, None


def first_piece(I, st, it):
    """the first piece of a text split at a separator, by where the separator is first found: [(state, rest, piece)]"""
    if it.args[0] != "base" or it.args[2] is not I_(0):
        return None
    ss = [x for x in it.args[1].args if isinstance(x, Term) and x.op == "split"]
    if len(ss) != 1 or ss[0].args[0] not in ("split_inclusive", "split") or it.args[1].op not in ("d_vrefs", "d_elems"):
        return None
    kind, s, p = ss[0].args
    if p.op != "str" or not p.args[0] or not it.args[3] is I.seq_len(ss[0]):
        return None
    v = app("find", s, p)
    I.enum_ty.setdefault(v, I.ty_by_s.get("std::option::Option<usize>"))
    out, n, w = [], I.seq_len(s), I_(len(p.args[0].encode()))
    rest = T("it", "base", it.args[1], I_(1), it.args[3])
    starts = [st]
    if kind == "split_inclusive":
        starts = []
        for s2, b in I.branch(st, lt(I_(0), n)):
            if b:
                starts.append(s2)
            else:
                out.append((s2, it, None))
    for s1 in starts:
        for b in (0, 1):
            s2 = s1.copy()
            if not s2.assume(T("isvar", v, b)):
                continue
            s2.facts.assume(le(I_(1), it.args[3]))
            if not b:
                out.append((s2, rest, s))
                continue
            i = T("vf", v, 1, 0)
            s2.facts.assume(le(add(i, w), n))
            s2.facts.assume(le(I_(0), i))
            out.append((s2, rest, I.seq_slice(s2, s, I_(0), add(i, w) if kind == "split_inclusive" else i)))
    return out


def m_next(I, st, args, back=False):
    v, wb = it_arg(I, st, args[0])
    if v is None:
        return None
    if v.op != "it":
        return None
    out = []
    if not back:
        first = first_piece(I, st, v)
        if first is not None:
            for s2, it2, e in first:
                if wb:
                    I.write(s2, wb[0], wb[1], it2)
                out.append(("ret", s2, NONE if e is None else SOME(T("vref", e))))
            return out
    if not may_skip(v):
        for o in step(I, st, v, back):
            if o[0] == "panic":
                out.append(o)
                continue
            s2, it2, kind, e = o
            if wb:
                I.write(s2, wb[0], wb[1], it2)
            out.append(("ret", s2, SOME(e) if kind == "elem" else NONE))
        return out

    def body(s, e, get, put):
        put(s, "r", SOME(e))
        return [("exit", s, "found")]

    for o in iterate(I, st, v, {"r": NONE}, body, "next", back):
        if o[0] == "panic":
            out.append(o)
        else:
            kind, s2, vals, it2 = o
            if wb:
                I.write(s2, wb[0], wb[1], it2)
            out.append(("ret", s2, vals["r"]))
    return out


def consume(fn):
    """decorator for methods that take the iterator by value or by reference"""
    def m(I, st, args, ct, at, rt):
        v, wb = it_arg(I, st, args[0])
        if v is None or v.op != "it":
            return None
        return fn(I, st, v, args[1:], wb, rt)
    return m


ITER = {}


def itm(*names):
    def deco(f):
        g = consume(f)
        for n in names:
            ITER[n] = g
        return g
    return deco


def fin(I, outs, wb, pick):
    res = []
    for o in outs:
        if o[0] == "panic":
            res.append(o)
            continue
        kind, s2, vals, it2 = o
        if wb and it2 is not None:
            I.write(s2, wb[0], wb[1], it2)
        res.append(("ret", s2, pick(kind, vals)))
    return res


@itm("count")
def _count(I, st, it, rest, wb, rt):
    n = it_len(it)
    if n is not None and not (it.args[0] in ("map", "inspect")):
        return n if st.facts.entails_le0(scale(n, -1)) or it.args[0] == "base" else n

    def body(s, e, get, put):
        put(s, "n", add(get(s, "n"), I_(1)))
        return [("back", s)]
    return fin(I, iterate(I, st, it, {"n": I_(0)}, body, "count"), wb, lambda k, v: v["n"])


@itm("last")
def _last(I, st, it, rest, wb, rt):
    if it.args[0] == "base" or (it.args[0] == "cloned" and it.args[1].args[0] == "base"):
        return m_next(I, st, [it], back=True)

    def body(s, e, get, put):
        put(s, "r", SOME(e))
        return [("back", s)]
    return fin(I, iterate(I, st, it, {"r": NONE}, body, "last"), wb, lambda k, v: v["r"])


@itm("nth")
def _nth(I, st, it, rest, wb, rt):
    n = rest[0]
    core, wraps = it, []
    while core.args[0] in ("enum", "cloned"):
        wraps.append(core)
        core = core.args[1]
    if core.args[0] == "base":
        lo, hi, desc = core.args[2], core.args[3], core.args[1]
        k = add(lo, n)
        out = []
        for s2, b in I.branch(st, lt(k, hi)):
            if b:
                e = elem_of(I, s2, desc, k)
                for w in reversed(wraps):
                    e = T("tuple", add(w.args[2], n), e) if w.args[0] == "enum" else I.val(s2, e)
                nit = T("it", "base", desc, add(k, I_(1)), hi)
                for w in reversed(wraps):
                    nit = T("it", "enum", nit, add(w.args[2], add(n, I_(1)))) if w.args[0] == "enum" else T("it", "cloned", nit)
                if wb:
                    I.write(s2, wb[0], wb[1], nit)
                out.append(("ret", s2, SOME(e)))
            else:
                if wb:
                    I.write(s2, wb[0], wb[1], T("it", "empty"))
                out.append(("ret", s2, NONE))
        return out
    if n is I_(0):
        return m_next(I, st, [it])

    def body(s, e, get, put):
        i = get(s, "i")
        out = []
        for s2, b in I.branch(s, ieq(i, n)):
            if b:
                put(s2, "r", SOME(e))
                out.append(("exit", s2, "found"))
            else:
                put(s2, "i", add(i, I_(1)))
                out.append(("back", s2))
        return out
    return fin(I, iterate(I, st, it, {"i": I_(0), "r": NONE}, body, "nth"), wb, lambda k, v: v["r"])


def pairwise_equal(I, st, it, f):
    """zip(..).all(|(x, y)| x == y) as a comparison of the two beginnings"""
    if it.args[0] != "zip" or not all(i.args[0] == "base" and i.args[1].op in ("d_vrefs", "d_elems", "d_refs") for i in it.args[1:3]):
        return None
    (s1, a1, b1), (s2, a2, b2) = ((I.read(st, *i.args[1].args[:2]) if i.args[1].op == "d_refs" else i.args[1].args[0], i.args[2], i.args[3]) for i in it.args[1:3])
    x, y = T("sym", "one of a pair"), T("sym", "other of a pair")
    s0 = st.copy()
    w = [z if i.args[1].op == "d_elems" else T("vref", z) for i, z in zip(it.args[1:3], (x, y))]
    os = lam_apply(I, s0, f, [T("tuple", *w)])
    if len(os) != 1 or os[0][0] != "ret" or os[0][1].unk or os[0][2] not in (ieq(x, y), T("eq", x, y), T("eq", y, x)):
        return None
    out = []
    n1, n2 = sub(b1, a1), sub(b2, a2)
    for s3, b in I.branch(st, le(n2, n1)):
        n = n2 if b else n1
        out.append(("ret", s3, eq_values(I, s3, I.seq_slice(s3, s1, a1, add(a1, n)), I.seq_slice(s3, s2, a2, add(a2, n)))))
    return out


def search(I, st, it, f, wb, mode, back=False):
    def body(s, e, get, put):
        out = []
        i = get(s, "i")
        arg = T("vref", e) if mode in ("find", "rfind") else e
        for o in lam_apply(I, s, f, [arg]):
            if o[0] != "ret":
                out.append(o)
                continue
            s2, v = o[1], o[2]
            if mode == "find_map":
                for s3, x in opt_cases(I, s2, v):
                    if x is not None:
                        put(s3, "r", SOME(x))
                        out.append(("exit", s3, "found"))
                    else:
                        out.append(("back", s3))
                continue
            for s3, b in I.branch(s2, v):
                if mode == "all":
                    b2 = not b
                else:
                    b2 = b
                if b2:
                    put(s3, "r", {"position": SOME(i), "any": TRUE, "all": FALSE}.get(mode, SOME(e)))
                    out.append(("exit", s3, "found"))
                else:
                    if mode == "position":
                        put(s3, "i", add(i, I_(1)))
                    out.append(("back", s3))
        return out
    if mode == "all" and not back:
        r = pairwise_equal(I, st, it, f)
        if r is not None:
            return r
    init = {"any": FALSE, "all": TRUE}.get(mode, NONE)
    return fin(I, iterate(I, st, it, {"r": init, "i": I_(0)}, body, mode, back), wb, lambda k, v: v["r"])


for _m in ("position", "any", "all", "find", "find_map"):
    itm(_m)(lambda I, st, it, rest, wb, rt, _m=_m: search(I, st, it, rest[0], wb, _m))
itm("rfind")(lambda I, st, it, rest, wb, rt: search(I, st, it, rest[0], wb, "find", True))


@itm("rposition")
def _rposition(I, st, it, rest, wb, rt):
    n = it_len(it)
    if n is None:
        raise Budget("rposition")

    def body(s, e, get, put):
        out = []
        i = sub(get(s, "i"), I_(1))
        for o in lam_apply(I, s, rest[0], [e]):
            if o[0] != "ret":
                out.append(o)
                continue
            for s3, b in I.branch(o[1], o[2]):
                put(s3, "i", i)
                if b:
                    put(s3, "r", SOME(i))
                    out.append(("exit", s3, "found"))
                else:
                    out.append(("back", s3))
        return out
    return fin(I, iterate(I, st, it, {"r": NONE, "i": n}, body, "rposition", True), wb, lambda k, v: v["r"])


@itm("fold")
def _fold(I, st, it, rest, wb, rt):
    def body(s, e, get, put):
        out = []
        for o in lam_apply(I, s, rest[1], [get(s, "a"), e]):
            if o[0] == "ret":
                put(o[1], "a", o[2])
                out.append(("back", o[1]))
            else:
                out.append(o)
        return out
    return fin(I, iterate(I, st, it, {"a": rest[0]}, body, "fold"), wb, lambda k, v: v["a"])


@itm("for_each")
def _for_each(I, st, it, rest, wb, rt):
    def body(s, e, get, put):
        out = []
        f = ("T", I.uid())
        s.store[f] = rest[0]
        for o in I.apply(s, T("ref", f), [e]):
            if o[0] == "ret":
                out.append(("back", o[1]))
            else:
                out.append(o)
        return out
    return fin(I, iterate(I, st, it, {}, body, "for_each"), wb, lambda k, v: UNIT)


@itm("sum")
def _sum(I, st, it, rest, wb, rt):
    def body(s, e, get, put):
        put(s, "a", add(get(s, "a"), I.val(s, e)))
        return [("back", s)]
    return fin(I, iterate(I, st, it, {"a": I_(0)}, body, "sum"), wb, lambda k, v: v["a"])


@itm("max", "min")
def _max(I, st, it, rest, wb, rt):
    return None


@itm("collect")
def _collect(I, st, it, rest, wb, rt):
    t = I.types[rt] if rt is not None else {}
    p = t.get("path")
    if p == "std::string::String":
        if it.args[0] == "base" and it.args[1].op in ("d_elems", "d_vrefs"):
            s = it.args[1].args[0]
            if s.op in ("chars", "graphemes") and it.args[2] is I_(0) and it.args[3] is I.seq_len(s):
                return s.args[0]
        return chosen_chars(I, st, it)
    if p != "std::vec::Vec":
        return None
    return gather(I, st, it, wb)


def chosen_chars(I, st, it):
    """the characters of a text that a predicate lets through, or what a function makes of them"""
    if it.args[0] in ("filter", "filter_map", "map", "take_while", "skip_while", "map_while", "rev", "cloned", "inspect"):
        if it.args[0] in ("cloned", "inspect"):
            return chosen_chars(I, st, it.args[1])
        x = chosen_chars(I, st, it.args[1])
        if x is None and it.args[0] in ("map", "filter_map"):
            # each byte made into a character
            b = it.args[1]
            while b.args[0] in ("cloned", "inspect"):
                b = b.args[1]
            if b.args[0] == "base" and b.args[1].op == "d_refs":
                x = app("bytes:each", I.seq_slice(st, I.val(st, I.read(st, b.args[1].args[0], b.args[1].args[1])), b.args[2], b.args[3]))
            elif b.args[0] == "base" and b.args[1].op in ("d_elems", "d_vrefs") and b.args[1].args[0].op in ("gapbytes", "sym", "vf", "fld", "cat", "sl", "fill"):
                x = app("bytes:each", I.seq_slice(st, b.args[1].args[0], b.args[2], b.args[3]))
        if x is None:
            return None
        f = [deep(I, st, a) for a in it.args[2:3]]
        if any(y.op in ("unk", "lv") for t in f for y in subterms(t)):
            return None
        return app("chars:" + it.args[0], x, *f)
    if it.args[0] == "base" and it.args[1].op in ("d_elems", "d_vrefs"):
        s = it.args[1].args[0]
        if s.op in ("chars", "graphemes"):
            off = coff if s.op == "chars" else goff
            lo, hi = (I.seq_len(s.args[0]) if k is I.seq_len(s) else off(s, k) for k in it.args[2:4])
            if lo is I_(0) and hi is I.seq_len(s.args[0]):
                return s.args[0]
            st.facts.assume(le(lo, hi))
            st.facts.assume(le(hi, I.seq_len(s.args[0])))
            return I.seq_slice(st, s.args[0], lo, hi)
    return None


def gather(I, st, it, wb=None):
    """the sequence of an iterator's elements"""
    if it.args[0] == "base" and it.args[1].op == "d_elems":
        return [("ret", st, I.seq_slice(st, it.args[1].args[0], it.args[2], it.args[3]))]
    if it.args[0] == "rev" and it.args[1].args[0] == "base" and it.args[1].args[1].op == "d_elems":
        b = it.args[1]
        return [("ret", st, T("rev", I.seq_slice(st, b.args[1].args[0], b.args[2], b.args[3])))]

    def body(s, e, get, put):
        put(s, "v", I.seq_cat(s, get(s, "v"), I.mkcat(s, [T("el", e)])))
        return [("back", s)]
    return fin(I, iterate(I, st, it, {"v": T("nil")}, body, "collect"), wb, lambda k, v: v["v"])


def adapter(name, mk):
    def m(I, st, args, ct, at, rt):
        a = args[0]
        if a.op in ("ref", "vref"):
            root, proj = place_of(I, st, a)
            v = I.read(st, root, proj)
            if v.op != "it":
                return None
            it = T("it", "byref", root, proj)
        else:
            it = to_iter(I, st, a)
            if it is None:
                return None
        return mk(I, st, it, args[1:])
    ITER[name] = m


adapter("by_ref", lambda I, st, it, r: None)
ITER["by_ref"] = lambda I, st, args, ct, at, rt: args[0]
adapter("rev", lambda I, st, it, r: it.args[1] if it.args[0] == "rev" else T("it", "rev", it))
adapter("enumerate", lambda I, st, it, r: T("it", "enum", it, I_(0)))
adapter("cloned", lambda I, st, it, r: T("it", "cloned", it))
adapter("copied", lambda I, st, it, r: T("it", "cloned", it))
adapter("fuse", lambda I, st, it, r: it)
adapter("peekable", lambda I, st, it, r: T("it", "peek", it, T("nopeek")))
for _n in ("map", "filter", "filter_map", "take_while", "inspect", "map_while"):
    adapter(_n, lambda I, st, it, r, _n=_n: T("it", _n, it, r[0]))
adapter("skip_while", lambda I, st, it, r: T("it", "skip_while", it, r[0], FALSE))


def _take(I, st, it, r):
    if it.args[0] == "base":
        lo, hi = it.args[2], it.args[3]
        n = r[0]
        if I._le(st, n, sub(hi, lo)):
            return T("it", "base", it.args[1], lo, add(lo, n))
        return it
    if it.args[0] == "rev" and it.args[1].args[0] == "base":
        _, desc, lo, hi = it.args[1].args
        if I._le(st, r[0], sub(hi, lo)):
            return T("it", "rev", T("it", "base", desc, sub(hi, r[0]), hi))
        return it
    if it.args[0] in ("cloned", "map") or it.args[0] == "enum":
        x = _take(I, st, it.args[1], r)
        if x.args[0] != "take":
            return T("it", it.args[0], x, *it.args[2:])
    return T("it", "take", it, r[0])


def _skip(I, st, it, r):
    n = r[0]
    if it.args[0] == "base":
        lo, hi = it.args[2], it.args[3]
        if I._le(st, n, sub(hi, lo)):
            return T("it", "base", it.args[1], add(lo, n), hi)
        return T("it", "base", it.args[1], hi, hi)
    if it.args[0] == "enum":
        L = it_len(it)
        if L is not None and I._le(st, n, L):
            return T("it", "enum", _skip(I, st, it.args[1], r), add(it.args[2], n))
        return T("it", "empty")
    if it.args[0] == "rev" and it.args[1].args[0] == "base":
        b = it.args[1]
        if I._le(st, n, sub(b.args[3], b.args[2])):
            return T("it", "rev", T("it", "base", b.args[1], b.args[2], sub(b.args[3], n)))
        return T("it", "empty")
    if it.args[0] in ("map",):
        return T("it", it.args[0], _skip(I, st, it.args[1], r), *it.args[2:])
    return None


def _flat_map(I, st, it, r, ident=False):
    def body(s, e, get, put):
        out = []
        for o in ([("ret", s, e)] if ident else lam_apply(I, s, r[0], [e])):
            if o[0] != "ret":
                out.append(o)
                continue
            i2 = to_iter(I, o[1], o[2])
            if i2 is None:
                raise Budget("flat_map")
            for q in gather(I, o[1], i2):
                if q[0] == "ret":
                    put(q[1], "v", I.seq_cat(q[1], get(q[1], "v"), q[2]))
                    out.append(("back", q[1]))
                else:
                    out.append(q)
        return out
    res = fin(I, iterate(I, st, it, {"v": T("nil")}, body, "flat_map"), None, lambda k, v: v["v"])
    return [(o[0], o[1], it_over(I, o[1], o[2], False)) if o[0] == "ret" else o for o in res]


adapter("flat_map", _flat_map)
adapter("flatten", lambda I, st, it, r: _flat_map(I, st, it, r, True))
adapter("take", _take)
adapter("skip", _skip)


def _second(I, st, r, kind, it):
    o = to_iter(I, st, r[0])
    return T("it", kind, it, o) if o is not None else None


adapter("chain", lambda I, st, it, r: _second(I, st, r, "chain", it))
adapter("zip", lambda I, st, it, r: _second(I, st, r, "zip", it))
ITER["next"] = lambda I, st, args, ct, at, rt: m_next(I, st, args)
ITER["next_back"] = lambda I, st, args, ct, at, rt: m_next(I, st, args, True)


def _peek(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    v = I.read(st, root, proj)
    if v.op != "it" or v.args[0] != "peek":
        return None
    if v.args[2].op != "nopeek":
        p = v.args[2]
        return [("ret", s2, SOME(T("vref", x)) if x is not None else NONE) for s2, x in opt_cases(I, st, p)]
    if may_skip(v.args[1]):
        raise Budget("peek over a filter")
    out = []
    for o in step(I, st, v.args[1]):
        if o[0] == "panic":
            out.append(o)
            continue
        s2, it2, kind, e = o
        I.write(s2, root, proj, T("it", "peek", it2, SOME(e) if kind == "elem" else NONE))
        out.append(("ret", s2, SOME(T("vref", e)) if kind == "elem" else NONE))
    return out


ITER["peek"] = _peek


def _it_length(I, st, args, ct, at, rt):
    v, _ = it_arg(I, st, args[0])
    return it_len(v) if v is not None else None


ITER["len"] = _it_length


@model("std::option::Option::iter", "std::option::Option::iter_mut")
def _opt_iter(I, st, args, ct, at, rt):
    """at most one element: a reference to what the option holds"""
    if args[0].op not in ("ref", "vref"):
        return None
    root, proj = place_of(I, st, args[0])
    v = I.force(st, I.read(st, root, proj))
    if v.op == "adt":
        if v.args[0] != OPT:
            return None
        sts = [(st, v.args[1])]
    else:
        sts = []
        for i in (0, 1):
            s2 = st.copy()
            if s2.assume(T("isvar", v, i)):
                sts.append((s2, i))
    out = []
    for s2, i in sts:
        s = T("nil") if i == 0 else I.mkcat(s2, [T("el", I.mkref(root, proj + (("v", 1), ("f", 0)), s2))])
        out.append(("ret", s2, base_it(I, d_elems(s), I_(0), I.seq_len(s))))
    return out


@model("std::iter::IntoIterator::into_iter")
def _into_iter(I, st, args, ct, at, rt):
    a = args[0]
    if a.op in ("ref", "vref"):
        root, proj = place_of(I, st, a)
        v = I.read(st, root, proj)
        if v.op == "it":
            return a
    return to_iter(I, st, a)


# ------------------------------------------------------------------ references, cells, boxes

@model("std::rc::Rc::new")
def _rc_new(I, st, args, ct, at, rt):
    root = ("R", "new%d" % I.uid())
    st.store[root] = args[0]
    return T("rc", root)


@model("std::boxed::Box::new")
def _box_new(I, st, args, ct, at, rt):
    return T("box", args[0])


@model("std::cell::RefCell::new")
def _rcell_new(I, st, args, ct, at, rt):
    return T("refcell", args[0])


@model("std::rc::Rc::ptr_eq")
def _ptr_eq(I, st, args, ct, at, rt):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    if a.op == "rc" and b.op == "rc":
        if a is b:
            return TRUE
        # distinct roots: fresh allocations differ from everything else
        if any(isinstance(x.args[0][1], str) and x.args[0][1].startswith("new") for x in (a, b)):
            return FALSE
    return app("ptr_eq", a, b)


def cell_place(I, st, a):
    root, proj = place_of(I, st, a)
    v = I.read(st, root, proj)
    if v.op == "rc":
        root, proj = v.args[0], ()
    return root, proj


def borrow(I, st, a, kind, try_=False):
    root, proj = cell_place(I, st, a)
    key = T("ref", root, *proj)
    held = st.borrows.get(key, ())
    st.ev("borrow", mode=kind, cell=key, held=held)
    bad = ("m" in held) if kind == "s" else bool(held)
    if bad and not try_:
        st.ev("panic", why="RefCell already borrowed", borrow=True)
        return [("panic", st, "RefCell already borrowed")]
    if bad:
        return ERR(T("constv", "BorrowError"))
    st.borrows[key] = held + (kind,)
    g = T("guard", kind, I.mkref(root, proj + (("cell",),), st), key)
    return OK(g) if try_ else g


model("std::cell::RefCell::borrow")(lambda I, st, a, ct, at, rt: borrow(I, st, a[0], "s"))
model("std::cell::RefCell::borrow_mut")(lambda I, st, a, ct, at, rt: borrow(I, st, a[0], "m"))
model("std::cell::RefCell::try_borrow")(lambda I, st, a, ct, at, rt: borrow(I, st, a[0], "s", True))
model("std::cell::RefCell::try_borrow_mut")(lambda I, st, a, ct, at, rt: borrow(I, st, a[0], "m", True))


@model("std::cell::RefCell::replace")
def _cell_replace(I, st, args, ct, at, rt):
    root, proj = cell_place(I, st, args[0])
    r = borrow(I, st, args[0], "m")
    if isinstance(r, list):
        return r
    old = I.read(st, root, proj + (("cell",),))
    I.write(st, root, proj + (("cell",),), args[1])
    I.drop(st, r)
    return old


@model("std::mem::drop")
def _drop(I, st, args, ct, at, rt):
    I.drop(st, args[0])
    return UNIT


@model("std::mem::swap")
def _swap(I, st, args, ct, at, rt):
    a, b = place_of1(I, st, args[0]), place_of1(I, st, args[1])
    x, y = I.read(st, *a), I.read(st, *b)
    I.write_hook(st, a[0], a[1], y)
    I.write(st, a[0], a[1], y)
    I.write_hook(st, b[0], b[1], x)
    I.write(st, b[0], b[1], x)
    return UNIT


@model("std::mem::replace")
def _replace(I, st, args, ct, at, rt):
    a = place_of1(I, st, args[0])
    x = I.read(st, *a)
    I.write_hook(st, a[0], a[1], args[1])
    I.write(st, a[0], a[1], args[1])
    return x


def place_of1(I, st, a):
    if a.op in ("ref", "vref"):
        return I.deref_target(st, a)
    return ("D", a), ()


@model("std::mem::take")
def _take_mem(I, st, args, ct, at, rt):
    t = I.types[rt] if rt is not None else {}
    a = place_of1(I, st, args[0])
    x = I.read(st, *a)
    if t.get("path") in ("std::vec::Vec", "std::string::String"):
        nv = T("nil")
    elif t.get("path") == OPT:
        nv = NONE
    elif t.get("k") == "int":
        nv = I_(0)
    else:
        return None
    I.write_hook(st, a[0], a[1], nv)
    I.write(st, a[0], a[1], nv)
    return x


def deref(I, st, args, ct, at, rt):
    a = args[0]
    root, proj = I.deref_target(st, a)
    v = I.read(st, root, proj)
    if v.op == "guard":
        return v.args[1]
    if v.op == "rc":
        return T("ref", v.args[0])
    if v.op == "box":
        return I.mkref(root, proj + (("box",),), st)
    return a


model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")(deref)


def ident(I, st, args, ct, at, rt):
    return args[0]


def valof(I, st, args, ct, at, rt):
    return rd(I, st, args[0])


for _n in ("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
           "std::string::String::as_str", "std::string::String::as_mut_str", "std::str::as_bytes", "std::string::String::as_bytes",
           "std::str::as_str", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_mut_vec", "std::path::PathBuf::as_path", "std::path::Path::new",
           "std::path::Path::as_os_str", "std::boxed::Box::leak", "std::slice::as_ref", "std::hint::black_box", "std::hint::must_use"):
    model(_n)(lambda I, st, args, ct, at, rt: deref(I, st, args, ct, at, rt) if args[0].op in ("ref", "vref") else args[0])


def clone(I, st, args, ct, at, rt):
    v = rd1(I, st, args[0])
    t = I.types[rt] if rt is not None else {}
    if v.op == "guard":
        return None
    if t.get("k") == "ref":
        return v
    return strip_value(I, st, v)


def rd1(I, st, a):
    """one level of reference"""
    if a.op in ("ref", "vref"):
        root, proj = I.deref_target(st, a)
        return I.read(st, root, proj)
    return T("deref", a)


def strip_value(I, st, v):
    return v


@model("std::clone::Clone::clone")
def _clone(I, st, args, ct, at, rt):
    t = I.types[rt] if rt is not None else {}
    impl = ct.get("impl", "")
    if t.get("local") or t.get("k") == "dyn" or (t.get("path") == "std::boxed::Box"):
        return None
    if t.get("path") == OPT:
        return None
    return clone(I, st, args, ct, at, rt)


@model("std::borrow::ToOwned::to_owned", "std::string::ToString::to_string", "std::borrow::Cow::into_owned", "std::str::to_string",
       "std::str::to_owned", "std::slice::to_vec", "std::path::Path::to_path_buf", "std::ffi::OsStr::to_os_string", "std::string::String::from",
       "std::slice::to_owned", "std::borrow::Cow::to_mut", "std::string::String::into_boxed_str", "std::str::into_string", "std::string::String::into_bytes", "std::vec::Vec::into_boxed_slice",
       "std::string::String::from_utf8_lossy", "std::string::String::from_utf8_unchecked", "std::str::from_utf8_unchecked", "std::string::String::from_utf8_lossy_owned")
def _owned(I, st, args, ct, at, rt):
    name = canon(ct["name"])
    v = rd(I, st, args[0])
    if name.endswith("from_utf8_lossy"):
        if file_bytes(v) is not None:
            # bytes of which nothing is known: what is not UTF-8 is replaced
            r = app("lossy", v)
            return T("vref", r) if I.types[rt]["k"] == "ref" else r
        st.ev("lossy", seq=v)
    if name.endswith("from_utf8_unchecked") and canon(ct["name"]).startswith("std::str"):
        return T("vref", v)
    if name == "std::string::ToString::to_string":
        t = None
        if at:
            tid = I.strip_refs(at[0])
            t = I.types[tid]
            p = t.get("path", "")
            if p in ("std::string::String", "std::borrow::Cow") or t["k"] == "str":
                return v
            if t["k"] == "char":
                return T("chstr", v) if v.op != "int" else T("str", chr(v.args[0]))
            if t["k"] == "int":
                return app("to_string", v)
            # a Display implementation of the crate
            w = 0
            while t.get("path") in ("std::cell::Ref", "std::cell::RefMut", "std::rc::Rc", "std::boxed::Box") and w < 5:
                tid = t["args"][0]
                t = I.types[tid]
                w += 1
            key = I.impl_of(tid, "std::fmt::Display::fmt")
            if key:
                return display(I, st, key, args[0])
            v = deep(I, st, v)
            if v.op == "app" and v.args[0] == "path:display":
                return app("path:shown", *v.args[1:])
        return None
    return v


def display(I, st, key, arg):
    root = ("T", I.uid())
    st.store[root] = T("fmtr", T("nil"))
    out = []
    root_, proj_ = place_of(I, st, arg)
    v = I.read(st, root_, proj_)
    if v.op == "rc":
        root_, proj_ = v.args[0], ()
    a = I.mkref(root_, proj_, st)
    prim = I.prims.get(canon(I.fns[key]["name"]))
    fa = [a, T("ref", root)]
    for o in I.as_outs(st, prim(I, st, fa, None)) if prim else I.call_key(st, key, fa):
        if o[0] != "ret":
            out.append(o)
            continue
        s2 = o[1]
        f = s2.store.pop(root)
        out.append(("ret", s2, f.args[0] if f.op == "fmtr" else T("unk", "fmt")))
    return out


@model("std::convert::From::from", "std::convert::Into::into")
def _from(I, st, args, ct, at, rt):
    if rt is None or not at:
        return None
    a, b = I.types[at[0]], I.types[rt]
    if at[0] == rt:
        return args[0]
    sp = lambda t: t.get("path") if t["k"] == "adt" else t["k"]
    src = I.types[I.strip_refs(at[0])]
    if sp(b) in ("std::string::String", "std::path::PathBuf", "std::vec::Vec", "std::borrow::Cow", "std::ffi::OsString") and (
            sp(src) in ("str", "std::string::String", "std::path::Path", "std::path::PathBuf", "std::borrow::Cow", "slice", "std::ffi::OsStr", "std::ffi::OsString")):
        return rd(I, st, args[0])
    if sp(src) == "char" and sp(b) == "std::string::String":
        v = rd(I, st, args[0])
        return T("chstr", v) if v.op != "int" else T("str", chr(v.args[0]))
    if sp(b) == "std::rc::Rc":
        return _rc_new(I, st, args, ct, at, rt)
    if sp(b) == "std::boxed::Box" and sp(a) != "std::boxed::Box":
        return T("box", args[0])
    if sp(b) == OPT:
        return SOME(args[0])
    if b.get("path", "").endswith("errors::Error"):
        v = args[0]
        return v if a.get("path") == b.get("path") else T("err", v)
    if b["k"] == "int" and a["k"] in ("int", "char") and not (a.get("bits", 64) > b.get("bits", 64)):
        return args[0]
    if b["k"] == "param" or a["k"] == "param":
        return rd(I, st, args[0]) if a["k"] != "adt" or a.get("path") == "std::string::String" else args[0]
    return None


@model("std::default::Default::default")
def _default(I, st, args, ct, at, rt):
    t = I.types[rt]
    p = t.get("path")
    if p in ("std::vec::Vec", "std::string::String"):
        return T("nil")
    if p == OPT:
        return NONE
    if t["k"] == "int":
        return I_(0)
    if t["k"] == "bool":
        return FALSE
    if p == "std::path::PathBuf":
        return T("constv", "PathBuf", "")
    return None


# ------------------------------------------------------------------ comparisons and integers

@model("std::cmp::PartialEq::eq")
def _eq(I, st, args, ct, at, rt):
    a, b = deep(I, st, args[0]), deep(I, st, args[1])
    t = I.types[I.strip_refs(at[0])]
    if t["k"] == "adt" and t.get("local"):
        return None
    return eq_values(I, st, a, b)


@model("std::cmp::PartialEq::ne")
def _ne(I, st, args, ct, at, rt):
    t = I.types[I.strip_refs(at[0])]
    if t["k"] == "adt" and (t.get("local") or t.get("path") == OPT):
        key = I.impl_of(I.strip_refs(at[0]), "std::cmp::PartialEq::eq")
        if key:
            out = []
            a = [args[0], args[1]]
            for o in I.call_key(st, key, a):
                out.append(("ret", o[1], neg(o[2])) if o[0] == "ret" else o)
            return out
        if t.get("local"):
            return None
    return neg(eq_values(I, st, deep(I, st, args[0]), deep(I, st, args[1])))


def deep(I, st, v, n=0):
    """value with all the references inside resolved"""
    v = I.val(st, v)
    v = I.force(st, v)
    if n < 6 and v.op in ("adt", "tuple", "el", "cat", "box"):
        na = tuple(deep(I, st, a, n + 1) if isinstance(a, Term) else a for a in v.args)
        if na != v.args:
            return T(v.op, *na)
    return v


def eq_values(I, st, a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if is_grapheme(x) and x.args[0].args[1] is TRUE and y.op in ("str", "bytes"):
            s = y.args[0] if y.op == "str" else bytes(y.args[0]).decode("latin1")
            if s == "\n":
                return ieq(gcls(x), I_(0))
            if s == "\r\n":
                return ieq(gcls(x), I_(1))
        if x.op == "adt" and x.args[0] == OPT and y.op != "adt":
            out = None
            if y not in I.enum_ty:
                I.enum_ty[y] = None
            if x.args[1] == 0:
                return T("isvar", y, 0)
            if st.facts.decide(T("isvar", y, 1)) is None:
                raise Split(T("isvar", y, 1), T("isvar", y, 0))
            if st.facts.decide(T("isvar", y, 1)) is False:
                return FALSE
            return eq_values(I, st, x.args[2], deep(I, st, I.project(st, T("dc", y, 1), ("f", 0))))
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = conj(r, eq_values(I, st, x, y))
        return r
    # Option == Option for opaque values of a known Option type
    return I.eqv(st, a, b)


@model("std::cmp::Ord::cmp")
def _cmp(I, st, args, ct, at, rt):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    t = I.types[I.strip_refs(at[0])]
    if t["k"] not in ("int", "char"):
        return None
    return ordv(I._cmp3(st, a, b))


@model("std::cmp::PartialOrd::partial_cmp")
def _pcmp(I, st, args, ct, at, rt):
    t = I.types[I.strip_refs(at[0])]
    if t["k"] not in ("int", "char"):
        if t["k"] == "tuple" and all(I.types[x]["k"] in ("int", "char") for x in t["args"]):
            return SOME(ordv(lex(I, st, args)))
        return None
    return SOME(ordv(I._cmp3(st, rd(I, st, args[0]), rd(I, st, args[1]))))


def lex(I, st, args):
    a, b = deep(I, st, args[0]), deep(I, st, args[1])
    for x, y in zip(a.args, b.args):
        c = I._cmp3(st, x, y)
        if c != "=":
            return c
    return "="


def rel(op):
    def m(I, st, args, ct, at, rt):
        t = I.types[I.strip_refs(at[0])]
        if t["k"] in ("int", "char"):
            a, b = rd(I, st, args[0]), rd(I, st, args[1])
            return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[op]
        if t["k"] == "tuple" and all(I.types[x]["k"] in ("int", "char") for x in t["args"]):
            c = lex(I, st, args)
            return B(c in {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op] if c != "=" else op in ("le", "ge"))
        return None
    return m


for _n in ("lt", "le", "gt", "ge"):
    model("std::cmp::PartialOrd::" + _n)(rel(_n))


def minmax(which):
    def m(I, st, args, ct, at, rt):
        t = I.types[rt]
        if t["k"] != "int":
            return None
        a, b = args[0], args[1]
        small = I._le(st, a, b)
        return (a if small else b) if which == "min" else (b if small else a)
    return m


for _w in ("min", "max"):
    for _p in ("std::cmp::", "std::cmp::Ord::", "std::num::"):
        model(_p + _w)(minmax(_w))


@model("std::cmp::Ord::clamp")
def _clamp(I, st, args, ct, at, rt):
    x, lo, hi = args
    if not I._le(st, lo, x):
        return lo
    if not I._le(st, x, hi):
        return hi
    return x


@model("std::num::saturating_sub")
def _ssub(I, st, args, ct, at, rt):
    if I._le(st, args[1], args[0]):
        return sub(args[0], args[1])
    return I_(0)


@model("std::num::saturating_add")
def _sadd(I, st, args, ct, at, rt):
    st.ev("satadd", a=args[0], b=args[1])
    return add(args[0], args[1])


@model("std::num::checked_sub")
def _csub(I, st, args, ct, at, rt):
    if I._le(st, args[1], args[0]):
        return SOME(sub(args[0], args[1]))
    return NONE


@model("std::num::checked_add")
def _cadd(I, st, args, ct, at, rt):
    return SOME(add(args[0], args[1]))


@model("std::num::max_value", "std::num::min_value")
def _limit(I, st, args, ct, at, rt):
    t = I.types[rt]
    if t["k"] != "int":
        return None
    hi = canon(ct["name"]).endswith("max_value")
    if t.get("signed"):
        return I_((1 << (t["bits"] - 1)) - 1 if hi else -(1 << (t["bits"] - 1)))
    return I_((1 << t["bits"]) - 1 if hi else 0)


@model("std::num::abs_diff")
def _absdiff(I, st, args, ct, at, rt):
    return sub(args[0], args[1]) if I._le(st, args[1], args[0]) else sub(args[1], args[0])


@model("std::num::wrapping_add")
def _wadd(I, st, args, ct, at, rt):
    b = args[1]
    return T("wrapping", "add", args[0], b)


@model("std::num::wrapping_sub")
def _wsub(I, st, args, ct, at, rt):
    if st.facts.decide(le(args[1], args[0])) is True:
        return sub(args[0], args[1])
    return T("wrapping", "sub", args[0], args[1])


@model("std::num::is_some_and")
def _nope(I, st, args, ct, at, rt):
    return None


# ------------------------------------------------------------------ Vec and slices

@model("std::vec::Vec::new", "std::string::String::new", "std::vec::Vec::with_capacity", "std::string::String::with_capacity")
def _vec_new(I, st, args, ct, at, rt):
    return T("nil")


@model("std::vec::Vec::len", "std::str::len", "std::string::String::len", "std::slice::len")
def _len(I, st, args, ct, at, rt):
    return slen(I, seqv(I, st, args[0]))


def slen(I, s):
    if s.op == "chstr":
        return T("len_utf8", s.args[0])
    return I.seq_len(s)


@model("std::vec::Vec::is_empty", "std::str::is_empty", "std::string::String::is_empty", "std::slice::is_empty")
def _is_empty(I, st, args, ct, at, rt):
    return ieq(slen(I, seqv(I, st, args[0])), I_(0))


@model("std::vec::Vec::push", "std::string::String::push")
def _push(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    x = args[1]
    if canon(ct["name"]).startswith("std::string"):
        piece = T("str", chr(x.args[0])) if x.op == "int" else T("chstr", x)
        n = I.seq_cat(st, s, piece)
    else:
        n = I.seq_cat(st, s, I.mkcat(st, [T("el", x)]))
    I.write_hook(st, root, proj, n)
    I.write(st, root, proj, n)
    st.ev("seqop", op="push", root=root, proj=proj, val=x)
    uncap(I, st, root, proj)
    return UNIT


def uncap(I, st, root, proj):
    """after a growing write: the capacity is as before only if that was enough"""
    c = st.store.get(("C", root, proj))
    if c is not None and not st.facts.entails_le0(sub(I.seq_len(I.read(st, root, proj)), c)):
        st.store.pop(("C", root, proj), None)


@model("std::vec::Vec::pop", "std::string::String::pop")
def _pop(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    if canon(ct["name"]).startswith("std::string"):
        n = I.seq_len(s)
        for c in "\n\r":
            if st.facts.decide(str_test(I, st, "ends_with", s, T("str", c))) is True:
                st.facts.assume(le(I_(1), n))
                I.write(st, root, proj, I.seq_slice(st, s, I_(0), sub(n, I_(1))))
                return SOME(I_(ord(c)))
        return None
    n = I.seq_len(s)
    out = []
    for s2, b in I.branch(st, ieq(n, I_(0))):
        if b:
            out.append(("ret", s2, NONE))
        else:
            m = sub(n, I_(1))
            x = I.seq_at(s2, s, m)
            nv = I.seq_slice(s2, s, I_(0), m)
            I.write_hook(s2, root, proj, nv)
            I.write(s2, root, proj, nv)
            s2.ev("seqop", op="pop", root=root, proj=proj, val=x)
            out.append(("ret", s2, SOME(x)))
    return out


@model("std::vec::Vec::insert")
def _insert(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i, x = args[1], args[2]
    n = I.seq_len(s)

    def ok(s2):
        nv = I.seq_cat(s2, I.seq_slice(s2, s, I_(0), i), I.mkcat(s2, [T("el", x)]), I.seq_slice(s2, s, i, n))
        I.write_hook(s2, root, proj, nv)
        I.write(s2, root, proj, nv)
        uncap(I, s2, root, proj)
        return UNIT
    return checked(I, st, le(i, n), "Vec::insert index out of bounds", ok)


@model("std::string::String::insert_str")
def _insert_str(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i, x = args[1], seqv(I, st, args[2])
    n = I.seq_len(s)

    def ok(s2):
        s2.ev("strslice", seq=s, lo=i, hi=i)
        nv = I.seq_cat(s2, I.seq_slice(s2, s, I_(0), i), x, I.seq_slice(s2, s, i, n))
        I.write(s2, root, proj, nv)
        return UNIT
    return checked(I, st, le(i, n), "insert_str out of bounds", ok)


@model("std::string::String::insert")
def _insert_char(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i, x = args[1], args[2]
    n = I.seq_len(s)

    def ok(s2):
        s2.ev("strslice", seq=s, lo=i, hi=i)
        piece = T("str", chr(x.args[0])) if x.op == "int" else T("chstr", x)
        I.write(s2, root, proj, I.seq_cat(s2, I.seq_slice(s2, s, I_(0), i), piece, I.seq_slice(s2, s, i, n)))
        uncap(I, s2, root, proj)
        return UNIT
    return checked(I, st, le(i, n), "String::insert out of bounds", ok)


@model("std::vec::Vec::remove")
def _remove(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i = args[1]
    n = I.seq_len(s)

    def ok(s2):
        x = I.seq_at(s2, s, i)
        nv = I.seq_cat(s2, I.seq_slice(s2, s, I_(0), i), I.seq_slice(s2, s, add(i, I_(1)), n))
        I.write_hook(s2, root, proj, nv)
        I.write(s2, root, proj, nv)
        return x
    return checked(I, st, lt(i, n), "Vec::remove index out of bounds", ok)


@model("std::vec::Vec::swap_remove")
def _swap_remove(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i = args[1]
    n = I.seq_len(s)

    def ok(s2):
        x = I.seq_at(s2, s, i)
        last = I.seq_at(s2, s, sub(n, I_(1)))
        nv = I.seq_slice(s2, I.seq_upd(s2, s, i, last), I_(0), sub(n, I_(1)))
        I.write(s2, root, proj, nv)
        return x
    return checked(I, st, lt(i, n), "Vec::swap_remove index out of bounds", ok)


@model("std::vec::Vec::clear", "std::string::String::clear")
def _clear(I, st, args, ct, at, rt):
    wr(I, st, args[0], T("nil"))
    return UNIT


@model("std::vec::Vec::truncate", "std::string::String::truncate")
def _truncate(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    if I._le(st, args[1], n):
        if canon(ct["name"]).startswith("std::string"):
            st.ev("strslice", seq=s, lo=I_(0), hi=args[1])
        I.write(st, root, proj, I.seq_slice(st, s, I_(0), args[1]))
    return UNIT


@model("std::string::String::retain")
def _retain(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    f = deep(I, st, args[1])
    if s.op == "unk" or any(y.op in ("unk", "lv") for y in subterms(f)):
        return None
    I.write(st, root, proj, app("chars:filter", s, f))
    return UNIT


@model("std::vec::Vec::split_off", "std::string::String::split_off")
def _split_off(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)

    def ok(s2):
        if canon(ct["name"]).startswith("std::string"):
            s2.ev("strslice", seq=s, lo=I_(0), hi=args[1])
        r = I.seq_slice(s2, s, args[1], n)
        I.write(s2, root, proj, I.seq_slice(s2, s, I_(0), args[1]))
        return r
    return checked(I, st, le(args[1], n), "split_off out of bounds", ok)


@model("std::vec::Vec::append", "std::vec::Vec::extend_from_slice", "std::string::String::push_str", "std::vec::Vec::extend")
def _append(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    x = seqv(I, st, args[1])
    I.write_hook(st, root, proj, s)
    I.write(st, root, proj, I.seq_cat(st, s, x))
    uncap(I, st, root, proj)
    if canon(ct["name"]).endswith("append"):
        wr(I, st, args[1], T("nil"))
    return UNIT


@model("std::iter::Extend::extend")
def _extend(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    it = to_iter(I, st, args[1])
    if it is None:
        return None
    if it.args[0] == "cloned":
        b = it.args[1]
        if b.args[0] == "base" and b.args[1].op in ("d_vrefs", "d_refs"):
            src = b.args[1].args[0] if b.args[1].op == "d_vrefs" else I.read(st, b.args[1].args[0], b.args[1].args[1])
            I.write(st, root, proj, I.seq_cat(st, s, I.seq_slice(st, src, b.args[2], b.args[3])))
            return UNIT
    if it.args[0] == "base" and it.args[1].op == "d_elems":
        I.write(st, root, proj, I.seq_cat(st, s, I.seq_slice(st, it.args[1].args[0], it.args[2], it.args[3])))
        return UNIT

    def body(s2, e, get, put):
        put(s2, "v", I.seq_cat(s2, get(s2, "v"), I.mkcat(s2, [T("el", e)])))
        return [("back", s2)]
    out = []
    for o in iterate(I, st, it, {"v": s}, body, "extend"):
        if o[0] == "panic":
            out.append(o)
        else:
            I.write(o[1], root, proj, o[2]["v"])
            out.append(("ret", o[1], UNIT))
    return out


@model("std::vec::Vec::drain", "std::string::String::drain")
def _drain(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    ab = bounds(I, st, args[1], n)
    if ab is None:
        return None
    a, b = ab

    def ok(s2):
        x = I.seq_slice(s2, s, a, b)
        I.write(s2, root, proj, I.seq_cat(s2, I.seq_slice(s2, s, I_(0), a), I.seq_slice(s2, s, b, n)))
        return base_it(I, d_elems(x), I_(0), I.seq_len(x))
    return checked(I, st, conj(le(a, b), le(b, n)), "drain out of bounds", ok)


def bounds(I, st, r, n):
    """(lo, hi) of a range value"""
    r = I.val(st, r)
    if r.op != "adt":
        return None
    p = r.args[0]
    f = r.args[2:]
    if p == "std::ops::Range":
        return f[0], f[1]
    if p == "std::ops::RangeFrom":
        return f[0], n
    if p == "std::ops::RangeTo":
        return I_(0), f[0]
    if p == "std::ops::RangeFull":
        return I_(0), n
    if p == "std::ops::RangeInclusive":
        return f[0], add(f[1], I_(1))
    if p == "std::ops::RangeToInclusive":
        return I_(0), add(f[0], I_(1))
    return None


def slen_ty(I, at):
    t = I.types[I.strip_refs(at[0])]
    return t["k"] == "str" or t.get("path") == "std::string::String"


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i = I.val(st, args[1])
    n = I.seq_len(s)
    if i.op == "adt":
        ab = bounds(I, st, i, n)
        if ab is None:
            return None
        a, b = ab
        isstr = slen_ty(I, at)

        def ok(s2):
            if isstr:
                s2.ev("strslice", seq=s, lo=a, hi=b)
            return I.mkref(root, proj + (("range", a, b),), s2)
        return checked(I, st, conj(le(a, b), le(b, n)), "slice index out of range", ok)
    if I.types[at[1]]["k"] != "int":
        return None
    return checked(I, st, lt(i, n), "index out of bounds", lambda s2: elem_ref(I, s2, root, proj, i))


@model("std::slice::get", "std::slice::get_mut", "std::str::get", "std::vec::Vec::get")
def _get(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i = I.val(st, args[1])
    n = I.seq_len(s)
    if i.op == "adt":
        ab = bounds(I, st, i, n)
        if ab is None:
            return None
        a, b = ab
        c = conj(le(a, b), le(b, n))
        if slen_ty(I, at):
            c = conj(c, conj(boundary(I, st, s, a), boundary(I, st, s, b)))
        return [("ret", s2, SOME(I.mkref(root, proj + (("range", a, b),), s2)) if v else NONE) for s2, v in I.branch(st, c)]
    return [("ret", s2, SOME(elem_ref(I, s2, root, proj, i)) if v else NONE) for s2, v in I.branch(st, lt(i, n))]


@model("std::slice::get_unchecked", "std::slice::get_unchecked_mut", "std::str::get_unchecked")
def _get_unchecked(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    i = I.val(st, args[1])
    n = I.seq_len(s)
    if i.op == "adt":
        a, b = bounds(I, st, i, n)
        st.ev("unchecked", cond=conj(le(a, b), le(b, n)))
        return I.mkref(root, proj + (("range", a, b),), st)
    st.ev("unchecked", cond=lt(i, n))
    return elem_ref(I, st, root, proj, i)


def ends(which):
    def m(I, st, args, ct, at, rt):
        root, proj = place_of(I, st, args[0])
        s = I.read(st, root, proj)
        n = I.seq_len(s)
        out = []
        for s2, b in I.branch(st, ieq(n, I_(0))):
            if b:
                out.append(("ret", s2, NONE))
            else:
                out.append(("ret", s2, SOME(elem_ref(I, s2, root, proj, I_(0) if which == "first" else sub(n, I_(1))))))
        return out
    return m


for _w in ("first", "last"):
    for _s in ("", "_mut"):
        model("std::slice::" + _w + _s)(ends(_w))


@model("std::slice::iter", "std::slice::iter_mut", "std::vec::Vec::iter", "std::vec::Vec::iter_mut")
def _iter(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    if root[0] == "V":
        return base_it(I, d_vrefs(s), I_(0), n)
    return base_it(I, d_refs(root, proj, True), I_(0), n)


@model("std::slice::swap")
def _sswap(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    a, b = args[1], args[2]

    def ok(s2):
        x, y = I.seq_at(s2, s, a), I.seq_at(s2, s, b)
        nv = I.seq_upd(s2, I.seq_upd(s2, s, a, y), b, x)
        I.write_hook(s2, root, proj, nv)
        I.write(s2, root, proj, nv)
        return UNIT
    return checked(I, st, conj(lt(a, n), lt(b, n)), "swap out of bounds", ok)


@model("std::slice::reverse")
def _reverse(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    I.write(st, root, proj, s.args[0] if s.op == "rev" else T("rev", s))
    return UNIT


@model("std::slice::fill")
def _fill(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    nv = T("rep", args[1], I.seq_len(s))
    I.write_hook(st, root, proj, nv)
    I.write(st, root, proj, nv)
    return UNIT


@model("std::slice::copy_within")
def _copy_within(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    ab = bounds(I, st, args[1], n)
    if ab is None:
        return None
    a, b = ab
    d = args[2]

    def ok(s2):
        e = add(d, sub(b, a))
        nv = I.seq_cat(s2, I.seq_slice(s2, s, I_(0), d), I.seq_slice(s2, s, a, b), I.seq_slice(s2, s, e, n))
        I.write_hook(s2, root, proj, nv)
        I.write(s2, root, proj, nv)
        return UNIT
    return checked(I, st, conj(conj(le(a, b), le(b, n)), le(add(d, sub(b, a)), n)), "copy_within out of range", ok)


@model("std::slice::copy_from_slice", "std::slice::clone_from_slice")
def _copy_from(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    x = seqv(I, st, args[1])

    def ok(s2):
        I.write_hook(s2, root, proj, x)
        I.write(s2, root, proj, x)
        return UNIT
    return checked(I, st, ieq(I.seq_len(s), I.seq_len(x)), "copy_from_slice length mismatch", ok)


@model("std::vec::Vec::capacity", "std::string::String::capacity")
def _capacity(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    return capacity(I, st, root, proj)


def capacity(I, st, root, proj):
    k = ("C", root, proj)
    c = st.store.get(k)
    if c is None:
        c = T("cap", I.uid())
        st.store[k] = c
        st.facts.assume(le(I.seq_len(I.read(st, root, proj)), c))
    return c


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::string::String::reserve", "std::string::String::reserve_exact")
def _reserve(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    c = capacity(I, st, root, proj)
    n = I.seq_len(I.read(st, root, proj))
    c2 = T("cap", I.uid())
    st.store[("C", root, proj)] = c2
    st.facts.assume(le(add(n, args[1]), c2))
    st.facts.assume(le(c, c2))
    st.ev("reserve", root=root, proj=proj, n=args[1])
    return UNIT


@model("std::vec::Vec::set_len")
def _set_len(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    c = capacity(I, st, root, proj)
    n = I.seq_len(s)
    m = args[1]
    ok = st.facts.decide(le(m, c))
    st.ev("set_len", ok=ok, new=m, cap=c)
    if I._le(st, n, m):
        junk = T("uninit", I.uid())
        L = sub(m, n)
        I.write(st, root, proj, I.mkcat(st, I.seq_pieces(s) + [T("sl", junk, I_(0), L)]))
    else:
        I.write(st, root, proj, I.seq_slice(st, s, I_(0), m))
    return UNIT


@model("std::vec::Vec::resize")
def _resize(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    if I._le(st, n, args[1]):
        r = T("rep", args[2], sub(args[1], n))
        I.write(st, root, proj, I.mkcat(st, I.seq_pieces(s) + [T("sl", r, I_(0), sub(args[1], n))]))
        uncap(I, st, root, proj)
    else:
        I.write(st, root, proj, I.seq_slice(st, s, I_(0), args[1]))
    return UNIT


@model("std::vec::Vec::shrink_to_fit", "std::string::String::shrink_to_fit", "std::vec::Vec::shrink_to", "std::string::String::shrink_to")
def _shrink(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    st.store.pop(("C", root, proj), None)
    return UNIT


@model("std::slice::contains")
def _scontains(I, st, args, ct, at, rt):
    return app("slice_contains", deep(I, st, args[0]), deep(I, st, args[1]))


@model("std::slice::concat", "std::slice::join")
def _concat(I, st, args, ct, at, rt):
    s = deep(I, st, args[0])
    ps = I.seq_pieces(s)
    if canon(ct["name"]).endswith("concat") and all(p.op == "el" for p in ps):
        return I.seq_cat(st, *[I.val(st, p.args[0]) for p in ps])
    if canon(ct["name"]).endswith("join") and len(args) > 1:
        sep = seqv(I, st, args[1])
        if any(y.op in ("unk", "lv") for y in subterms(s)) or sep.op != "str":
            return None
        w = whole(I, s)
        if w is not None and w.op == "split" and w.args[0] == "split" and w.args[2] is sep:
            return w.args[1]
        return app("join", s, sep)
    return None


def whole(I, s):
    """the sequence that a comprehension copies element by element"""
    if s.op == "comp" and len(s.args) == 4:
        b = s.args[0]
        if b.op == "vref":
            b = b.args[0]
        if b.op == "at" and b.args[1].op == "bv" and s.args[2] is I_(0) and s.args[3] is I.seq_len(b.args[0]):
            return b.args[0]
    return s if s.op == "split" else None


@model("std::slice::split_at", "std::str::split_at", "std::slice::split_at_mut")
def _split_at(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    i = args[1]

    def ok(s2):
        if canon(ct["name"]).startswith("std::str"):
            s2.ev("strslice", seq=s, lo=i, hi=i)
        return T("tuple", I.mkref(root, proj + (("range", I_(0), i),), s2), I.mkref(root, proj + (("range", i, n),), s2))
    return checked(I, st, le(i, n), "split_at out of bounds", ok)


# ------------------------------------------------------------------ strings

@model("std::str::chars")
def _chars(I, st, args, ct, at, rt):
    return it_over(I, st, T("chars", seqv(I, st, args[0])), False)


@model("std::str::bytes")
def _bytes(I, st, args, ct, at, rt):
    return it_over(I, st, seqv(I, st, args[0]), False)


@model("std::str::char_indices")
def _char_indices(I, st, args, ct, at, rt):
    c = T("chars", seqv(I, st, args[0]))
    return base_it(I, T("d_cidx", c), I_(0), I.seq_len(c))


@model("std::str::lines")
def _lines(I, st, args, ct, at, rt):
    return it_over(I, st, T("lines", seqv(I, st, args[0])))


def splitter(kind):
    def m(I, st, args, ct, at, rt):
        p = as_char_pat(I, st, args[-1], True)
        if p is None:
            return None
        s = T("split", kind, seqv(I, st, args[0]), p)
        it = it_over(I, st, s)
        if kind == "split":
            st.facts.assume(le(I_(1), I.seq_len(s)))
        return it
    return m


for _k in ("split", "split_terminator", "split_inclusive"):
    model("std::str::" + _k)(splitter(_k))


@model("std::str::rsplit")
def _rsplit(I, st, args, ct, at, rt):
    p = as_char_pat(I, st, args[1], True)
    if p is None:
        return None
    s = T("split", "split", seqv(I, st, args[0]), p)
    st.facts.assume(le(I_(1), I.seq_len(s)))
    return T("it", "rev", it_over(I, st, s))


@model("std::str::matches")
def _matches(I, st, args, ct, at, rt):
    p = as_char_pat(I, st, args[1], True)
    if p is None:
        return None
    return it_over(I, st, T("matches", seqv(I, st, args[0]), p))


@model("std::str::match_indices")
def _match_indices(I, st, args, ct, at, rt):
    p = as_char_pat(I, st, args[1], True)
    if p is None:
        return None
    c = T("matches", seqv(I, st, args[0]), p)
    return base_it(I, T("d_midx", c), I_(0), I.seq_len(c))


for _k in ("ends_with", "starts_with", "contains"):
    def _f(I, st, args, ct, at, rt, _k=_k):
        p = as_char_pat(I, st, args[1])
        if p is None:
            return None
        return str_test(I, st, _k, seqv(I, st, args[0]), p)
    model("std::str::" + _k)(_f)


@model("std::slice::starts_with", "std::slice::ends_with")
def _sstarts(I, st, args, ct, at, rt):
    k = canon(ct["name"]).split("::")[-1]
    s, p = seqv(I, st, args[0]), seqv(I, st, args[1])
    if p.op == "bytes" and p.args[0] == (10,):
        p = T("str", "\n")
    return str_test(I, st, k, s, p)


@model("std::char::methods::len_utf8", "std::char::len_utf8")
def _len_utf8(I, st, args, ct, at, rt):
    return T("len_utf8", args[0])


@model("std::str::trim_end", "std::str::trim_start", "std::str::trim", "std::str::to_lowercase", "std::str::to_uppercase")
def _trim(I, st, args, ct, at, rt):
    v = app(canon(ct["name"]).split("::")[-1], seqv(I, st, args[0]))
    return T("vref", v) if I.types[rt]["k"] == "ref" else v


def _understood(I, st, args, ct, at, rt):
    """a function of its arguments that is not another way to say something simpler"""
    vals = [rd(I, st, a) for a in args]
    if any(v.op in ("it", "unk") for v in vals):
        return None
    v = app(canon(ct["name"]), *vals)
    I.note_type(v, rt)
    return T("vref", v) if I.types[rt]["k"] == "ref" else v


for _n in ("to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case", "is_ascii"):
    for _p in ("std::str::", "std::slice::", "std::slice::ascii::", "std::char::methods::", "std::num::"):
        model(_p + _n)(_understood)
for _n in ("is_whitespace", "is_alphanumeric", "is_alphabetic", "is_numeric", "is_control", "is_lowercase", "is_uppercase", "is_ascii_whitespace", "is_ascii_alphanumeric",
           "is_ascii_alphabetic", "is_ascii_digit", "is_ascii_punctuation", "is_ascii_graphic", "is_ascii_control", "len_utf16"):
    for _p in ("std::char::methods::", "std::num::"):
        model(_p + _n)(_understood)


@model("std::str::trim_end_matches", "std::str::trim_start_matches", "std::str::trim_matches", "std::str::replace", "std::str::replacen", "std::str::repeat")
def _trimm(I, st, args, ct, at, rt):
    nums = {"replacen": (2,), "repeat": (0,)}.get(canon(ct["name"]).split("::")[-1], ())
    ps = [rd(I, st, a) if i in nums else as_char_pat(I, st, a, True) for i, a in enumerate(args[1:])]
    if any(p is None for p in ps):
        return None
    s = seqv(I, st, args[0])
    if canon(ct["name"]).endswith("trim_end_matches") and ps[0].op == "str" and ps[0].args[0] == "\n" and I.one_line(st, s):
        out = []
        for s2, b in I.branch(st, str_test(I, st, "ends_with", s, ps[0])):
            if b:
                n = I.seq_len(s)
                s2.facts.assume(le(I_(1), n))
                out.append(("ret", s2, T("vref", I.seq_slice(s2, s, I_(0), sub(n, I_(1))))))
            else:
                out.append(("ret", s2, T("vref", s)))
        return out
    v = app(canon(ct["name"]).split("::")[-1], seqv(I, st, args[0]), *ps)
    return T("vref", v) if I.types[rt]["k"] == "ref" else v


@model("std::str::strip_suffix", "std::str::strip_prefix", "std::str::find", "std::str::rfind", "std::str::split_once", "std::str::rsplit_once")
def _strip(I, st, args, ct, at, rt):
    p = as_char_pat(I, st, args[1])
    if p is None:
        p = I.val(st, args[1])
        if p.op in ("vref", "ref", "deref"):
            p = seqv(I, st, args[1])
        if p.op in ("closure", "unk", "fn"):
            return None
    k = canon(ct["name"]).split("::")[-1]
    s = seqv(I, st, args[0])
    if k == "strip_suffix" and p.op == "str":
        n = I.seq_len(s)
        out = []
        for s2, b in I.branch(st, str_test(I, st, "ends_with", s, p)):
            if b:
                m = sub(n, I_(len(p.args[0].encode())))
                s2.facts.assume(le(I_(len(p.args[0].encode())), n))
                out.append(("ret", s2, SOME(T("vref", I.seq_slice(s2, s, I_(0), m)))))
            else:
                out.append(("ret", s2, NONE))
        return out
    if k == "strip_prefix" and p.op not in ("int", "bytes") and not (p.op == "app" and p.args[0] == "charset"):
        n, m = I.seq_len(s), I.seq_len(p)
        out = []
        for s2, b in I.branch(st, str_test(I, st, "starts_with", s, p)):
            if b:
                s2.facts.assume(le(m, n))
                out.append(("ret", s2, SOME(T("vref", I.seq_slice(s2, s, m, n)))))
            else:
                out.append(("ret", s2, NONE))
        return out
    if k in ("split_once", "rsplit_once") and p.op == "str" and p.args[0]:
        v = app("find" if k == "split_once" else "rfind", s, p)
        I.enum_ty.setdefault(v, I.ty_by_s.get("std::option::Option<usize>"))
        out = []
        for b in (0, 1):
            s2 = st.copy()
            if not s2.assume(T("isvar", v, b)):
                continue
            if not b:
                out.append(("ret", s2, NONE))
                continue
            i, n, w = T("vf", v, 1, 0), I.seq_len(s), I_(len(p.args[0].encode()))
            s2.facts.assume(le(add(i, w), n))
            s2.facts.assume(le(I_(0), i))
            out.append(("ret", s2, SOME(T("tuple", T("vref", I.seq_slice(s2, s, I_(0), i)), T("vref", I.seq_slice(s2, s, add(i, w), n))))))
        return out
    v = app(k, s, p)
    I.note_type(v, rt)
    return v


@model("std::str::is_char_boundary")
def _isb(I, st, args, ct, at, rt):
    return app("is_char_boundary", seqv(I, st, args[0]), args[1])


@model("std::str::from_utf8", "std::string::String::from_utf8")
def _from_utf8(I, st, args, ct, at, rt):
    s = seqv(I, st, args[0])
    p = file_bytes(s)
    if p is not None:
        # as reading the file as text: an error where it is none
        v = app("fs:read_to_string", p)
        t = I.ty_by_s.get("std::result::Result<std::string::String, std::io::Error>")
        if t is not None:
            I.note_type(v, t)
        out = []
        for i in (0, 1):
            s2 = st.copy()
            if s2.assume(T("isvar", v, i)):
                x = T("vf", v, i, 0)
                out.append(("ret", s2, T("adt", RES, i, T("vref", x) if i == 0 and canon(ct["name"]).startswith("std::str") else x)))
        return out
    st.ev("lossy", seq=s)
    r = T("vref", s) if canon(ct["name"]).startswith("std::str") else s
    return OK(r)


@model("unicode_segmentation::UnicodeSegmentation::graphemes")
def _graphemes(I, st, args, ct, at, rt):
    s = graphemes(seqv(I, st, args[0]), args[1])
    return it_over(I, st, s)


@model("unicode_segmentation::UnicodeSegmentation::grapheme_indices")
def _gindices(I, st, args, ct, at, rt):
    g = graphemes(seqv(I, st, args[0]), args[1])
    return base_it(I, T("d_gidx", g), I_(0), I.seq_len(g))


# ------------------------------------------------------------------ formatting

@model("std::fmt::rt::Argument::new_display")
def _new_display(I, st, args, ct, at, rt):
    t = I.types[I.strip_refs(at[0])]
    v = rd(I, st, args[0])
    if t["k"] == "str" or t.get("path") in ("std::string::String", "std::borrow::Cow"):
        return T("fmtarg", v)
    tid, w = I.strip_refs(at[0]), 0
    while I.types[tid].get("path") in ("std::cell::Ref", "std::cell::RefMut", "std::rc::Rc", "std::boxed::Box") and w < 5:
        tid, w = I.strip_refs(I.types[tid]["args"][0]), w + 1
    key = I.impl_of(tid, "std::fmt::Display::fmt")
    if key:
        arg = args[0]
        while I.types[I.strip_refs(at[0])] is not I.types[tid] and arg.op == "ref" and v.op == "ref":
            arg, v = v, rd(I, st, v)
        return [(o[0], o[1], T("fmtarg", o[2])) if o[0] == "ret" else o for o in display(I, st, key, arg)]
    return T("fmtarg", app("display", v))


@model("std::fmt::rt::Argument::new_debug")
def _new_debug(I, st, args, ct, at, rt):
    return T("fmtarg", app("debug", rd(I, st, args[0])))


@model("std::fmt::Arguments::new")
def _fmt_new(I, st, args, ct, at, rt):
    tpl = rd(I, st, args[0])
    av = rd(I, st, args[1])
    if tpl.op not in ("bytes",):
        ps = I.seq_pieces(tpl)
        bs = []
        for p in ps:
            if p.op == "el" and p.args[0].op == "int":
                bs.append(p.args[0].args[0])
            elif p.op == "sl" and p.args[0].op == "bytes":
                bs += list(p.args[0].args[0])
            else:
                return None
    else:
        bs = list(tpl.args[0])
    argv = [p.args[0] for p in I.seq_pieces(av) if p.op == "el"]
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(T("str", bytes(bs[i + 1:i + 1 + b]).decode("utf8", "replace")))
            i += 1 + b
        elif b == 0xC0:
            if n >= len(argv) or argv[n].op != "fmtarg":
                return None
            out.append(argv[n].args[0])
            n += 1
            i += 1
        else:
            return None
    return T("fmtargs", I.seq_cat(st, *out))


@model("std::fmt::Arguments::from_str")
def _fmt_str(I, st, args, ct, at, rt):
    return T("fmtargs", rd(I, st, args[0]))


def fmt_append(I, st, f, s):
    root, proj = place_of(I, st, f)
    v = I.read(st, root, proj)
    if v.op == "fmtr":
        I.write(st, root, proj, T("fmtr", I.seq_cat(st, v.args[0], s)))
    st.ev("fmtwrite", seq=s)
    return OK(UNIT)


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt")
def _write_fmt(I, st, args, ct, at, rt):
    a = args[1]
    if a.op != "fmtargs":
        return None
    root, proj = place_of(I, st, args[0])
    v = I.read(st, root, proj)
    if v.op == "fmtr":
        return fmt_append(I, st, args[0], a.args[0])
    if at and I.types[I.strip_refs(at[0])].get("path") == "std::string::String":
        I.write(st, root, proj, I.seq_cat(st, v, a.args[0]))
        return OK(UNIT)
    return fmt_append(I, st, args[0], a.args[0])


@model("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad")
def _write_str(I, st, args, ct, at, rt):
    return fmt_append(I, st, args[0], rd(I, st, args[1]))


@model("std::fmt::Display::fmt")
def _display_fmt(I, st, args, ct, at, rt):
    if not at:
        return None
    t = I.types[I.strip_refs(at[0])]
    if t["k"] == "str" or t.get("path") in ("std::string::String", "std::borrow::Cow"):
        return fmt_append(I, st, args[1], rd(I, st, args[0]))
    return None


@model("std::fmt::format")
def _format(I, st, args, ct, at, rt):
    return args[0].args[0] if args[0].op == "fmtargs" else None


# ------------------------------------------------------------------ files and paths

def opaque_result(I, st, v, rt):
    """fork on an opaque Result/Option"""
    I.note_type(v, rt)
    return v


def fsop(name, path_arg=0, effect=True):
    def m(I, st, args, ct, at, rt):
        vals = [deep(I, st, a) for a in args]
        v = app("fs:" + name, *vals) if not effect else app("fs:" + name, I_(I.uid()), *vals)
        st.ev("fs", op=name, args=tuple(vals), borrows=dict(st.borrows), res=v)
        I.note_type(v, rt)
        return v
    return m


for _n in ("read_to_string", "read", "metadata", "read_dir", "read_link", "exists"):
    model("std::fs::" + _n)(fsop(_n, effect=False))
for _n in ("write", "rename", "remove_file", "copy", "create_dir_all", "create_dir", "remove_dir_all", "set_permissions"):
    model("std::fs::" + _n)(fsop(_n))
model("std::fs::File::create")(fsop("create"))
model("std::fs::File::create_new")(fsop("create_new"))
model("std::fs::File::open")(fsop("open"))
model("std::fs::OpenOptions::open")(fsop("open_options"))
model("std::fs::OpenOptions::new")(lambda I, st, args, ct, at, rt: T("openopts"))
for _n in ("write", "create", "truncate", "append", "read", "create_new"):
    def _oo(I, st, args, ct, at, rt, _n=_n):
        root, proj = place_of(I, st, args[0])
        v = I.read(st, root, proj)
        if v.op == "openopts" and root[0] != "V":
            I.write(st, root, proj, T("openopts", *v.args, _n if args[1] is TRUE else "no_" + _n))
        return args[0]
    model("std::fs::OpenOptions::" + _n)(_oo)
for _n in ("sync_all", "sync_data", "set_len"):
    model("std::fs::File::" + _n)(fsop(_n))
model("std::io::Write::write_all")(fsop("write_all"))
model("std::io::Write::write")(fsop("write_some"))


@model("std::io::Write::write_fmt")
def _io_write_fmt(I, st, args, ct, at, rt):
    a = I.val(st, args[1])
    if a.op != "fmtargs":
        return None
    return fsop("write_all")(I, st, [args[0], T("vref", a.args[0])], ct, at, rt)


model("std::io::Write::flush")(fsop("flush"))


def file_path(v):
    """the path a file value was opened at"""
    while v.op in ("vf", "vref"):
        v = v.args[0]
    if v.op == "app" and v.args[0] in ("fs:open",):
        return v.args[2]
    if v.op == "app" and v.args[0] in ("fs:create", "fs:create_new", "fs:open_options"):
        return v.args[-1]
    if v.op == "app" and v.args[0] == "io:take":
        p = file_path(v.args[1])
        return None if p is None else app("io:beginning_of", p, v.args[2])
    return None


def file_bytes(v):
    """the path of the file a value is the bytes of"""
    if v.op == "vf" and v.args[1:] == (0, 0) and v.args[0].op == "app" and v.args[0].args[0] == "fs:read":
        return v.args[0].args[1]
    return None


@model("std::io::Read::read_to_end", "<std::fs::File as std::io::Read>::read_to_end", "<&std::fs::File as std::io::Read>::read_to_end")
def _file_read_to_end(I, st, args, ct, at, rt):
    p = file_path(deep(I, st, args[0]))
    if p is None:
        return None
    root, proj = place_of(I, st, args[1])
    if I.val(st, I.read(st, root, proj)) is not T("nil"):
        return None
    v = app("fs:read", p)
    t = I.ty_by_s.get("std::result::Result<std::vec::Vec<u8>, std::io::Error>")
    if t is not None:
        I.note_type(v, t)
    st.ev("fs", op="read", args=(p,), borrows=dict(st.borrows), res=v)
    out = []
    for i in (0, 1):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            if i == 0:
                x = T("vf", v, 0, 0)
                I.write(s2, root, proj, x)
                out.append(("ret", s2, OK(I.seq_len(x))))
            else:
                I.write(s2, root, proj, app("fs:read_partly", p))
                out.append(("ret", s2, T("adt", RES, 1, T("vf", v, 1, 0))))
    return out


@model("std::io::Read::read_to_string", "<std::fs::File as std::io::Read>::read_to_string", "<&std::fs::File as std::io::Read>::read_to_string")
def _file_read_to_string(I, st, args, ct, at, rt):
    f = deep(I, st, args[0])
    p = file_path(f)
    if p is None:
        return None
    v = app("fs:read_to_string", p)
    st.ev("fs", op="read_to_string", args=(p,), borrows=dict(st.borrows), res=v)
    s = I.ty_by_s.get("std::result::Result<std::string::String, std::io::Error>")
    if s is not None:
        I.note_type(v, s)
    out = []
    root, proj = place_of(I, st, args[1])
    for i in (0, 1):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            if i == 0:
                x = T("vf", v, 0, 0)
                I.write(s2, root, proj, I.seq_cat(s2, I.read(s2, root, proj), x))
                out.append(("ret", s2, OK(I.seq_len(x))))
            else:
                I.write(s2, root, proj, I.seq_cat(s2, I.read(s2, root, proj), app("fs:read_partly", p)))
                out.append(("ret", s2, T("adt", RES, 1, T("vf", v, 1, 0))))
    return out


def _bufwriter(I, st, args, ct, at, rt):
    return app("bufwriter", deep(I, st, args[-1]))


for _n in ("std::io::BufWriter::new", "std::io::buffered::bufwriter::BufWriter::new", "std::io::BufWriter::with_capacity", "std::io::buffered::bufwriter::BufWriter::with_capacity"):
    model(_n)(_bufwriter)


def pure(name, wrap=False):
    def m(I, st, args, ct, at, rt):
        v = app(name, *[deep(I, st, a) for a in args])
        t = I.types[rt]
        I.note_type(v, rt)
        if t["k"] == "ref":
            return T("vref", v)
        return v
    return m


for _n in ("canonicalize", "strip_prefix", "extension", "file_name", "file_stem", "parent", "join", "exists", "is_file", "is_dir", "is_absolute",
           "with_extension", "starts_with", "ends_with", "components", "display", "with_file_name"):
    model("std::path::Path::" + _n)(pure("path:" + _n))
model("std::fs::canonicalize")(pure("path:canonicalize"))
model("std::io::Error::kind")(pure("io:kind"))
model("std::io::Error::raw_os_error")(pure("io:raw_os_error"))
model("std::path::Path::to_str", "std::ffi::OsStr::to_str")(pure("os:to_str"))
model("std::path::Path::to_string_lossy", "std::ffi::OsStr::to_string_lossy")(pure("os:to_string_lossy"))
model("std::ffi::OsStr::is_empty")(pure("os:is_empty"))
model("std::ffi::OsStr::len")(pure("os:len"))
model("std::path::PathBuf::new")(lambda I, st, args, ct, at, rt: T("constv", "PathBuf", ""))
model("std::env::current_dir")(pure("env:current_dir"))

model("<error_chain::State as std::default::Default>::default", "error_chain::State::new")(lambda I, st, args, ct, at, rt: T("constv", "error_chain::State"))
for _n in ("syntect::parsing::SyntaxSet::find_syntax_by_extension", "syntect::parsing::SyntaxSet::find_syntax_plain_text",
           "syntect::parsing::SyntaxSet::find_syntax_by_name", "syntect::parsing::SyntaxSet::find_syntax_by_token",
           "syntect::parsing::SyntaxSet::find_syntax_by_path", "syntect::parsing::SyntaxSet::find_syntax_by_first_line",
           "syntect::parsing::SyntaxSet::find_syntax_for_file", "syntect::parsing::SyntaxSet::find_syntax_by_scope",
           "syntect::dumps::load_defaults_newlines", "syntect::dumps::load_defaults_nonewlines", "syntect::parsing::SyntaxSet::load_defaults_newlines", "syntect::parsing::SyntaxSet::into_builder",
           "syntect::parsing::SyntaxSet::load_defaults_nonewlines", "syntect::parsing::SyntaxSet::new", "syntect::parsing::SyntaxSetBuilder::new",
           "syntect::parsing::SyntaxSetBuilder::build", "syntect::parsing::ParseState::new", "syntect::parsing::ScopeStack::new", "syntect::parsing::SyntaxSet::load_from_folder"):
    model(_n)(pure(_n))


@model("syntect::parsing::SyntaxSetBuilder::add_from_folder")
def _add_from_folder(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    old = I.read(st, root, proj)
    vals = [deep(I, st, a) for a in args[1:]]
    st.ev("add_from_folder", args=tuple(vals))
    I.write(st, root, proj, app("added", old, *vals))
    v = app("syntect:add_from_folder", old, *vals)
    I.note_type(v, rt)
    return v


def mutapp(name):
    def m(I, st, args, ct, at, rt):
        root, proj = place_of(I, st, args[0])
        old = I.read(st, root, proj)
        vals = [deep(I, st, a) for a in args[1:]]
        st.ev("mutapp", op=name, old=old, args=tuple(vals))
        I.write(st, root, proj, app(name + "'", old, *vals))
        v = app(name, old, *vals)
        I.note_type(v, rt)
        if I.types[rt]["k"] == "adt" and I.types[rt].get("path") == RES:
            pass
        return v
    return m


model("syntect::parsing::ParseState::parse_line")(mutapp("parse_line"))
model("syntect::parsing::ScopeStack::apply", "syntect::parsing::ScopeStack::apply_with_hook")(mutapp("scope_apply"))


# ------------------------------------------------------------------ dispatch

FN_ITER = ("std::iter::Iterator::", "std::iter::DoubleEndedIterator::", "std::iter::ExactSizeIterator::", "std::iter::Peekable::", "std::iter::adapters::peekable::Peekable::", "std::iter::IteratorRandom::")


def lookup(name, impl, ct):
    m = TABLE.get(impl) or TABLE.get(name)
    if m is not None:
        return m
    for p in FN_ITER:
        if name.startswith(p):
            return ITER.get(name[len(p):])
    if ct.get("kind") == "virtual" or ct.get("kind") == "unresolved" and ct.get("local") and ct.get("trait"):
        return virtual
    if impl.startswith("core::") or name.startswith("std::intrinsics"):
        return None
    return None


def virtual(I, st, args, ct, at, rt):
    return I.virtual_call(st, ct, args, at, rt)


def call_value(I, st, callee, targs):
    v = callee
    n = 0
    while n < 12:
        n += 1
        if v.op == "ref":
            x = I.read(st, v.args[0], tuple(v.args[1:]))
            if x.op in ("closure", "fndef"):
                break
            v = x
        elif v.op == "vref":
            v = v.args[0]
        elif v.op == "box":
            v = v.args[0]
        else:
            break
    if v.op in ("closure", "fndef", "ref"):
        return I.apply(st, v, targs)
    st.ev("callback", callee=v, args=tuple(deep(I, st, a) for a in targs), borrows=dict(st.borrows), snap=I.snapshot(st))
    return [("ret", st, UNIT)]


def call_opaque(I, st, fv, args):
    return call_value(I, st, fv, args)


# ------------------------------------------------------------------ further library functions

@model("std::ops::Add::add", "std::ops::AddAssign::add_assign")
def _str_add(I, st, args, ct, at, rt):
    if not at or I.types[I.strip_refs(at[0])].get("path") != "std::string::String":
        return None
    if canon(ct["name"]).endswith("add_assign"):
        return _append(I, st, args, {"name": "std::string::String::push_str"}, at, rt)
    return I.seq_cat(st, seqv(I, st, args[0]), seqv(I, st, args[1]))


for _n in ("len", "permissions", "is_file", "is_dir", "modified", "created", "accessed", "file_type"):
    model("std::fs::Metadata::" + _n)(pure("meta:" + _n))
model("std::fs::Permissions::readonly")(pure("meta:readonly"))
model("std::env::var", "std::env::var_os")(pure("env:var"))
model("std::env::current_dir")(pure("env:current_dir"))
model("std::rc::Rc::strong_count", "std::rc::Rc::weak_count")(lambda I, st, args, ct, at, rt: app("rc:count", I_(I.uid())))
model("std::ffi::OsStr::to_ascii_lowercase", "std::ffi::OsStr::to_ascii_uppercase")(pure("os:ascii_case"))


def _changed(name):
    """a value changed in place into a function of what it was"""
    def m(I, st, args, ct, at, rt):
        root, proj = place_of(I, st, args[0])
        v = deep(I, st, I.read(st, root, proj))
        xs = [deep(I, st, a) for a in args[1:]]
        if any(y.op in ("unk", "lv") for x in [v] + xs for y in subterms(x)):
            return None
        if "retain" in name and any(len(x.args) > 1 for x in xs):
            return None  # which ones depends on what the closure captured
        I.write(st, root, proj, app(name, v, *xs))
        t = I.types[rt]
        return UNIT if t["k"] == "tuple" else app(name + "?", v, *xs)
    return m


model("std::path::PathBuf::push")(_changed("path:push"))
for _n in ("set_extension", "set_file_name", "pop"):
    model("std::path::PathBuf::" + _n)(_changed("path:" + _n))
for _n in ("retain", "retain_mut", "dedup", "dedup_by_key", "dedup_by"):
    model("std::vec::Vec::" + _n)(_changed("vec:" + _n))


@model("std::slice::sort_by_key", "std::slice::sort_by_cached_key", "std::slice::sort_unstable_by_key")
def _sort_by_key(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = deep(I, st, I.read(st, root, proj))
    if any(y.op in ("unk", "lv") for y in subterms(s)) or ordered_by(I, st, s, args[1]):
        return None
    I.write(st, root, proj, app("vec:sort", s, deep(I, st, args[1])))
    return UNIT


def ordered_by(I, st, s, f):
    """might the elements already be in this order?"""
    k = T("sym", "sorted element")
    fr = ("T", I.uid())
    s0 = st.copy()
    s0.store[fr] = f
    el = T("tuple", k, T("sym", "rest of it"))
    rs = I.apply(s0, T("ref", fr), [T("vref", el)])
    return len(rs) != 1 or rs[0][0] != "ret" or rs[0][1].unk or not (rs[0][2].op == "adt" and str(rs[0][2].args[0]).endswith("Reverse") and rs[0][2].args[2] is k)


@model("std::slice::rotate_left", "std::slice::rotate_right")
def _rotate(I, st, args, ct, at, rt):
    root, proj = place_of(I, st, args[0])
    s = I.read(st, root, proj)
    n = I.seq_len(s)
    k = args[1] if canon(ct["name"]).endswith("left") else sub(n, args[1])

    def ok(s2):
        nv = I.seq_cat(s2, I.seq_slice(s2, s, k, n), I.seq_slice(s2, s, I_(0), k))
        I.write_hook(s2, root, proj, nv)
        I.write(s2, root, proj, nv)
        return UNIT
    return checked(I, st, le(args[1], n), "rotate beyond the end", ok)


@model("std::io::BufReader::new", "std::io::buffered::bufreader::BufReader::new")
def _bufreader(I, st, args, ct, at, rt):
    v = deep(I, st, args[0])
    return v if file_path(v) is not None else None


@model("std::io::Read::take")
def _io_take(I, st, args, ct, at, rt):
    f = deep(I, st, args[0])
    return app("io:take", f, args[1]) if file_path(f) is not None else None


@model("std::num::rem_euclid")
def _rem_euclid(I, st, args, ct, at, rt):
    if I.types[rt]["s"] != "usize":
        return None
    a, b = args
    return checked(I, st, lt(I_(0), b), "remainder of a division by zero", lambda s2: remainder(s2, a, b))


def remainder(st, a, b):
    """a mod b where a is below 2b, or an opaque term: [outcome]"""
    d = sub(a, b)
    out = []
    for q, v in ((lt(a, b), a), (conj(le(b, a), lt(d, b)), d), (le(b, d), T("rem", a, b))):
        s2 = st.copy()
        if s2.assume(q):
            out.append(("ret", s2, v))
    return out
