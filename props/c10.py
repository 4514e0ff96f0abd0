"""Every function of the text store that moves, adds, removes or reads bytes is interpreted on an arbitrary store:
any content, gap location, gap length and argument, with the loops that copy bytes summarised in closed form. In
every path the content afterwards must be the one the store's contract names, the gap must lie within the store, and
no path may panic. Positions resolve as C12 shows they do. The store's invariant is assumed on entry and must hold
again on every exit."""
from .gap import *
from . import c12

ASSUMPTIONS = ["positions resolve as checked by C12", "the callers of insert_at and delete_at pass offsets within the text (checked by C01's obligations on Insert and Replace)"]


def flavours(ctx):
    """which kind of offset each position-resolving function returns, as C12 finds"""
    if hasattr(ctx, "_flav"):
        return ctx._flav
    out = {}
    for f, r in c12.finders(ctx):
        scratch = Obs("C12")
        fl = c12.resolve(ctx, scratch, f, r)
        if scratch.violations or scratch.undecided:
            fl = None
        out[canon(f["name"])] = (r, fl)
    ctx._flav = out
    return out


def finder_prim(s, r, fl):
    def prim(I, st, args, ct):
        from absint.models import place_of
        v = I.force(st, rd_(I, st, args[0]))
        p = position(I, st, rd_(I, st, args[1]))
        pt = parts_of(I, st, s.lay, v)
        if pt is None or p is None:
            st.imprecise("position resolved on a store that is not understood")
            return T("unk", "offset")
        D, g, L = pt
        C = contents(I, st, D, g, L)
        out = []
        for s2, x in coff_cases(I, st, C, *p):
            if r == "bool":
                out.append(("ret", s2, B(x is not None)))
                continue
            if x is None:
                out.append(("ret", s2, NONE))
                continue
            s.resolved(s2, C, p, x)
            if fl == {"content"}:
                out.append(("ret", s2, SOME(x)))
                continue
            for s3, behind in truth(s2, le(g, x)):
                out.append(("ret", s3, SOME(add(x, L) if behind else x)))
        return out
    return prim


def rd_(I, st, a):
    return models.rd(I, st, a)


class GapCase(Store):
    """one function on an arbitrary store"""

    def __init__(self, ctx, obs, f, full, over=None):
        super().__init__(ctx, full)
        self.ctx, self.obs, self.f = ctx, obs, f
        self.pairs = {}
        prims = {}
        ok = True
        for n, (r, fl) in flavours(ctx).items():
            if n == canon(f["name"]):
                continue
            if r != "bool" and (fl is None or len(fl) != 1):
                ok = False
                continue
            prims[n] = finder_prim(self, r, fl)
        self.ok = ok
        self.I = GapWorld(ctx, prims)
        self.pre = over
        self.I, self.st0, self.a, self.outs = analyse(ctx, obs, f, self.I, setup=self.before)

    def before(self, I, st, a):
        self.setup(I, st, a)
        if self.pre:
            self.pre(self, I, st, a)

    def resolved(self, st, C, p, x):
        """positions in order resolve to offsets in order"""
        for c in list(st.facts.variants):
            if c.op == "coff" and st.facts.variants[c] == 1 and c.args[0] is C:
                y = T("vf", c, 1, 0)
                q = (c.args[1], c.args[2])
                if y is x:
                    continue
                for u, ux, w, wx in ((q, y, p, x), (p, x, q, y)):
                    if ordered(st, u, w):
                        st.facts.assume(le(ux, wx))
                    elif st.facts.decide(ieq(u[0], w[0])) is True and st.facts.decide(lt(u[1], w[1])) is True:
                        st.facts.assume(le(ux, wx))


def ordered(st, u, w):
    if st.facts.decide(lt(u[0], w[0])) is True:
        return True
    if st.facts.decide(ieq(u[0], w[0])) is True and st.facts.decide(le(u[1], w[1])) is True:
        return True
    # ranges are normalised: line, then column
    return False


def invariant(obs, c, st, cap=True):
    """the gap lies within the store; with full, the store uses all the space it has"""
    I, f = c.I, c.f
    pt = c.now(I, st)
    if pt is None:
        obs.dunno("invariant", where(f), "the store's value is not understood")
        return None
    D, g, L = pt
    n = I.seq_len(D)
    for cond, what in ((le(Z0, g), "the gap starts within the store"), (le(Z0, L), "the gap's length is not negative"), (le(add(g, L), n), "the gap ends within the store")):
        obs.decide(unsure(st, holds(I, st, cond)), "invariant", where(f), "after the call it does not always hold that %s: start %s, length %s, store %s" % (what, show(g, 5), show(L, 5), show(n, 5)), path_of(st), key="gap@" + f["item"])
    if c.full:
        k = c.capacity(I, st)
        v = None if k is None else (True if st.facts.entails_eq0(sub(k, n)) else (None if taint(k) or taint(n) or st.unk else False))
        obs.decide(unsure(st, v), "invariant", where(f), "after the call the store may not use all the space it has: length %s, capacity %s" % (show(n, 5), show(k, 5) if k is not None else "?"), path_of(st), key="full@" + f["item"])
    return D, g, L


def content_is(obs, c, st, want, what):
    """the text held afterwards; want: a function of the state"""
    I, f = c.I, c.f
    pt = c.now(I, st)
    if pt is None:
        return
    try:
        both = splitting(st, lambda s: (contents(I, s, *pt), want(s) if callable(want) else want))
    except Split:
        obs.dunno("content", where(f), "the content afterwards is not understood")
        return
    for s, (got, w) in both:
        obs.decide(unsure(s, equal(I, s, got, w)), "content", where(f), "%s: the text afterwards is %s and should be %s" % (what, show(got, 7), show(w, 7)), path_of(s), key="content@" + f["item"])


def cut(I, st, C, a, b):
    return I.seq_slice(st, C, a, b)


def check(ctx, obs, tier):
    if layout(ctx) is None:
        # the text is not printed as two parts of the bytes: is there one reading of the fields under which all
        # the rest of the store works?
        for lay in layouts(ctx):
            ctx._lgap = lay
            o2 = Obs(obs.prop)
            try:
                ways(ctx, o2)
            except Exception:
                continue
            # (how positions resolve depends on what is printed)
            if not o2.violations and all(u[0] == "resolution" for u in o2.undecided):
                break
        else:
            ctx._lgap = None
            obs.dunno("layout", "GapBuffer", "representation of the text store not understood")
            return
    ways(ctx, obs)
    f = ctx.method("GapBuffer", "fmt", "Display")
    if need(obs, f, "GapBuffer::fmt"):
        printing(ctx, obs, f)


def ways(ctx, obs):
    for name, fn in (("new", new), ("insert", insert), ("insert_at", insert_at), ("read", read), ("delete", delete), ("delete_at", delete_at)):
        f = ctx.method("GapBuffer", name)
        if need(obs, f, "GapBuffer::" + name):
            fn(ctx, obs, f)


def usable(obs, c):
    if not c.ok:
        obs.dunno("resolution", where(c.f), "how positions resolve is not established")
    return c.ok


def new(ctx, obs, f):
    lay = layout(ctx)
    I = GapWorld(ctx)
    I, st0, a, outs = analyse(ctx, obs, f, I)
    no_panic(obs, f, outs)
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        v = I.force(st, I.val(st, o[2]))
        pt = parts_of(I, st, lay, v)
        if pt is None:
            obs.dunno("content", where(f), "the store made is not understood")
            continue
        D, g, L = pt
        n = I.seq_len(D)
        for cond, what in ((le(Z0, L), "the gap's length is not negative"), (le(add(g, L), n), "the gap ends within the store"), (le(Z0, g), "the gap starts within the store")):
            obs.decide(unsure(st, holds(I, st, cond)), "invariant", where(f), "a new store: it does not always hold that " + what, path_of(st), key="gap@new")
        k = [x for r, x in st.store.items() if r[0] == "C"]
        full = any(st.facts.entails_eq0(sub(x, n)) for x in k)
        obs.decide(True if full else (None if taint(n) or st.unk or not k else False), "invariant", where(f), "a new store may not use all the space it has: length %s" % show(n, 6), path_of(st), key="full@new")
        want = text_arg(I, st0, st, a[0])
        got = contents(I, st, D, g, L)
        obs.decide(equal(I, st, got, want), "content", where(f), "a new store holds %s instead of %s" % (show(got, 6), show(want, 6)), path_of(st), key="content@new")


def text_arg(I, st0, st, a):
    v = models.rd(I, st0, a)
    return v


def insert(ctx, obs, f):
    c = GapCase(ctx, obs, f, True)
    if not usable(obs, c):
        return
    I = c.I
    no_panic(obs, f, c.outs)
    p = position(I, c.st0, models.rd(I, c.st0, c.a[2]))
    s = models.rd(I, c.st0, c.a[1])
    for o in c.outs:
        if o[0] != "ret":
            continue
        for st, x in coff_cases(I, o[1], c.C, *p):
            invariant(obs, c, st)
            if x is None:
                content_is(obs, c, st, c.C, "inserting at a position that does not exist")
            else:
                content_is(obs, c, st, lambda s_: I.seq_cat(s_, cut(I, s_, c.C, Z0, x), s, cut(I, s_, c.C, x, c.n)), "inserting at a position")


def insert_at(ctx, obs, f):
    def pre(c, I, st, a):
        st.facts.assume(le(Z0, a[2]))
        st.facts.assume(le(a[2], c.n))
    c = GapCase(ctx, obs, f, True, pre)
    if not usable(obs, c):
        return
    I = c.I
    no_panic(obs, f, c.outs)
    s, x = models.rd(I, c.st0, c.a[1]), c.a[2]
    for o in c.outs:
        if o[0] == "ret":
            st = o[1]
            invariant(obs, c, st)
            content_is(obs, c, st, lambda s_: I.seq_cat(s_, cut(I, s_, c.C, Z0, x), s, cut(I, s_, c.C, x, c.n)), "inserting at an offset")


def delete_at(ctx, obs, f):
    def pre(c, I, st, a):
        for q in (le(Z0, a[1]), le(Z0, a[2]), le(add(a[1], a[2]), c.n)):
            st.facts.assume(q)
    c = GapCase(ctx, obs, f, True, pre)
    if not usable(obs, c):
        return
    I = c.I
    no_panic(obs, f, c.outs)
    x, k = c.a[1], c.a[2]
    for o in c.outs:
        if o[0] == "ret":
            st = o[1]
            invariant(obs, c, st)
            content_is(obs, c, st, lambda s_: I.seq_cat(s_, cut(I, s_, c.C, Z0, x), cut(I, s_, c.C, add(x, k), c.n)), "deleting at an offset")


def range_of(I, st, v):
    v = I.force(st, v)
    if v.op != "adt" or len(v.args) != 4:
        return None
    ps = [position(I, st, w) for w in v.args[2:]]
    return None if None in ps else ps


def read(ctx, obs, f):
    c = GapCase(ctx, obs, f, True)
    if not usable(obs, c):
        return
    I = c.I
    r = range_of(I, c.st0, models.rd(I, c.st0, c.a[1]))
    if r is None:
        obs.dunno("content", where(f), "the range is not understood")
        return
    p, q = r
    some_panics(obs, c, p, q)
    for o in c.outs:
        if o[0] != "ret":
            continue
        for st in normal(o[1], p, q):
            invariant(obs, c, st)
            content_is(obs, c, st, c.C, "reading")
            for s2, x in coff_cases(I, st, c.C, *p):
                for s3, y in coff_cases(I, s2, c.C, *q):
                    if x is not None and y is not None:
                        s3 = s3.copy()
                        s3.facts.assume(le(x, y))
                        if not s3.facts.feasible():
                            continue
                    for s4, v in opt(I, s3, o[2]):
                        if x is None or y is None:
                            obs.decide(unsure(s4, v is None if not s4.unk else None), "read", where(f), "reading a range with an end that does not exist returns something", path_of(s4), key="read-none")
                        elif v is None:
                            obs.decide(unsure(s4, None if s4.unk else False), "read", where(f), "reading a range of existing positions returns nothing", path_of(s4), key="read-some")
                        else:
                            want = cut(I, s4, c.C, x, y)
                            obs.decide(unsure(s4, equal(I, s4, v, want)), "read", where(f), "reads %s where %s is in the range" % (show(I.val(s4, v), 7), show(want, 6)), path_of(s4), key="read-text")


def normal(st, p, q):
    """the states in which p is not after q"""
    out = []
    for s2, k in pos_cases(st, p, q):
        if k != ">":
            out.append(s2)
    return out


def some_panics(obs, c, p, q):
    """no panic for a normalised range whose ends resolve in order"""
    bad = 0
    for o in c.outs:
        if o[0] != "panic":
            continue
        for st in normal(o[1], p, q):
            for s2, x in coff_cases(c.I, st, c.C, *p):
                for s3, y in coff_cases(c.I, s2, c.C, *q):
                    s3 = s3.copy()
                    if x is not None and y is not None and not s3.assume(le(x, y)):
                        continue
                    z = next_line(c, s3, q)
                    for s4, w in z:
                        if x is not None and w is not None and not s4.assume(le(x, w)):
                            continue
                        bad += 1
                        obs.decide(None if s4.unk or any(taint(t) for t in s4.pc) else False, "no-panic", where(c.f), "may panic: %s at %s" % (o[2], s4.where[1]), path_of(s4), key="panic@" + c.f["item"])
    if not bad:
        obs.ok("no-panic", where(c.f))


def next_line(c, st, q):
    out = []
    for s2, w in coff_cases(c.I, st, c.C, add(q[0], I1), Z0):
        out.append((s2.copy(), w))
    return out


def delete(ctx, obs, f):
    c = GapCase(ctx, obs, f, True)
    if not usable(obs, c):
        return
    I = c.I
    r = range_of(I, c.st0, models.rd(I, c.st0, c.a[1]))
    if r is None:
        obs.dunno("content", where(f), "the range is not understood")
        return
    p, q = r
    some_panics(obs, c, p, q)
    for o in c.outs:
        if o[0] != "ret":
            continue
        for st in normal(o[1], p, q):
            for s2, x in coff_cases(I, st, c.C, *p):
                if x is None:
                    invariant(obs, c, s2)
                    content_is(obs, c, s2, c.C, "deleting a range whose start does not exist")
                    for s3, v in opt(I, s2, o[2]):
                        obs.decide(unsure(s3, v is None if not s3.unk else None), "deleted", where(f), "deleting a range whose start does not exist returns something", path_of(s3), key="deleted-none")
                    continue
                for s3, y in coff_cases(I, s2, c.C, *q):
                    ends = [(s3, y)] if y is not None else [(s4, c.n if z is None else z) for s4, z in next_line(c, s3, q)]
                    for s4, z in ends:
                        s4 = s4.copy()
                        if not s4.assume(le(x, z)):
                            continue
                        invariant(obs, c, s4)
                        content_is(obs, c, s4, lambda s_: I.seq_cat(s_, cut(I, s_, c.C, Z0, x), cut(I, s_, c.C, z, c.n)), "deleting a range")
                        for s5, v in opt(I, s4, o[2]):
                            if v is None:
                                obs.decide(unsure(s5, None if s5.unk else False), "deleted", where(f), "deleting a range whose start exists returns nothing", path_of(s5), key="deleted-some")
                            else:
                                want = cut(I, s5, c.C, x, z)
                                obs.decide(unsure(s5, equal(I, s5, v, want)), "deleted", where(f), "returns %s where %s was deleted" % (show(I.val(s5, v), 7), show(want, 6)), path_of(s5), key="deleted-text")


def printing(ctx, obs, f):
    c = GapCase(ctx, obs, f, False)
    I = c.I
    no_panic(obs, f, c.outs)
    for o in c.outs:
        if o[0] != "ret":
            continue
        st = o[1]
        invariant(obs, c, st)
        content_is(obs, c, st, c.C, "printing")
        t = printed(I, st, c.a[1])
        obs.decide(unsure(st, equal(I, st, t, c.C)), "printed", where(f), "prints %s instead of the text" % show(t, 7), path_of(st), key="printed")
