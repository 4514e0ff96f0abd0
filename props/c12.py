"""Every function of the text store that resolves a position is interpreted on an arbitrary store. Its loop is
summarised in closed form: at the cluster with index k it has seen as many line breaks as there are clusters
ending in a line feed before k, and as many columns as clusters since the last of them. Where it finds the
position, these counts must be the position's line and column, and the offset returned that of cluster k (or the
text's length), shifted by the gap's length if it lies behind the gap, or never shifted. Where it does not, every
turn and the end of the loop must rule the position out."""
from .gap import *

ASSUMPTIONS = ["a grapheme cluster contains a line feed only as its last character (UAX 29 GB4, GB5)"]


def finders(ctx):
    """methods that resolve a position: (&self, &Position) -> Option<usize> or bool"""
    out = []
    for f in ctx.methods("GapBuffer"):
        if f["argc"] != 2 or f.get("impl_trait"):
            continue
        p = ctx.types[f["locals"][2][0]]
        if p["k"] != "ref" or not ctx.types[p["ty"]]["s"].endswith("Position"):
            continue
        r = ctx.types[f["locals"][0][0]]["s"]
        if r in ("std::option::Option<usize>", "bool"):
            out.append((f, r))
    return out


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "GapBuffer", "representation of the text store not understood")
        return
    fs = finders(ctx)
    names = {f["item"] for f, _ in fs}
    for n in ("in_bounds", "content_offset"):
        if n not in names:
            obs.dunno("anchor", "GapBuffer::" + n, "function not found")
    for f, r in fs:
        resolve(ctx, obs, f, r)


class Found:
    def __init__(self, ctx, obs, f):
        self.ctx, self.f = ctx, f
        I = GapWorld(ctx)
        self.s = s = Store(ctx, False)
        self.I, self.st0, self.a, self.outs = analyse(ctx, obs, f, I, setup=s.setup)
        self.p = position(I, self.st0, self.a[1])


def resolve(ctx, obs, f, r):
    x = Found(ctx, obs, f)
    I, s = x.I, x.s
    no_panic(obs, f, x.outs)
    flavours = {"content", "data"}
    x.tracked = tracking(obs, x)
    for o in x.outs:
        if o[0] != "ret":
            continue
        st = o[1]
        if r == "bool":
            for s2, b in truth(st, I.val(st, o[2])):
                judge(obs, x, s2, b, None)
        else:
            for s2, v in opt(I, st, o[2]):
                fl = judge(obs, x, s2, v is not None, v)
                if fl is not None:
                    if not flavours & fl:
                        obs.decide(False, "one-kind-of-offset", where(f), "offsets into the text and into the store are mixed: %s" % show(v, 6), path_of(s2), key="one-kind@" + f["item"])
                    flavours &= fl
    return flavours


def counts(I, x, st, k):
    """line and column of the cluster with index k of the content"""
    G = T("graphemes", x.s.C, TRUE)
    cond = le0(sub(T("gcls", T("at", G, T("bv"))), I1))
    return T("countif", (cond,), Z0, k), T("since", (cond,), Z0, Z0, k)


def at_end(x):
    nl = T("str", "\n")
    return T("occ", x.s.C, nl), T("len", T("graphemes", T("lastseg", x.s.C, nl), TRUE))


def indices(x, st, v):
    """the clusters whose position the path knows to be the one looked for: [(index, offset)]"""
    G = T("graphemes", x.s.C, TRUE)
    out = []
    cands = set()
    for t in list(st.pc) + ([v] if v is not None else []):
        for y in subterms(t):
            if y.op == "goff" and y.args[0] is G:
                cands.add(y.args[1])
            if y.op == "countif":
                cands.add(y.args[2])
    for e in st.events:
        if e.kind == "loopend":
            cands.add(e.d["end"])
    for k in cands:
        l, c = counts(x.I, x, st, k)
        if same_place(x, st, l, c):
            out.append((k, T("goff", G, k)))
    l, c = at_end(x)
    if same_place(x, st, l, c):
        out.append((T("len", G), x.s.n))
    return out


def same_place(x, st, l, c):
    """is (l, c) known to be the position looked for?"""
    if st.facts.entails_eq0(sub(l, x.p[0])) and st.facts.entails_eq0(sub(c, x.p[1])):
        return True
    for tr in x.tracked:
        ok = True
        for s in with_tracked(x, st, *tr, l, c):
            if not (s.facts.entails_eq0(sub(l, x.p[0])) and s.facts.entails_eq0(sub(c, x.p[1]))):
                ok = False
        if ok:
            return True
    return False


def with_tracked(x, st, lvl, cl, lvc, cc, rest, l, c):
    """what the counters mean while the place reached is (l, c): exact up to and on the line looked for, except
    that the column need only be right on it; beyond the line the counter must not come back to it"""
    want = add(x.p[0], cl)
    out = []
    for conds in ((lt(l, x.p[0]), ieq(lvl, add(l, cl)), ieq(lvc, cc) if rest else TRUE), (ieq(l, x.p[0]), ieq(lvl, want), ieq(lvc, add(c, cc))), (lt(x.p[0], l), lt(want, lvl))):
        s = st.copy()
        if all(s.assume(q) for q in conds):
            out.append(s)
    return out


def offset_of(c, p):
    """c: lv + k = p  ->  (lv, k)"""
    if c.op == "not":
        c = c.args[0]
    if c.op != "eq0":
        return None
    co, ps = parts(c.args[0])
    lvs = [t for t in ps if t.op == "lv"]
    if len(ps) != 2 or len(lvs) != 1 or p not in ps or ps[p] != -ps[lvs[0]]:
        return None
    return lvs[0], scale(I(co), -ps[lvs[0]]).args[0]


def tracking(obs, x):
    """counters without a closed form that are compared with the position: they must follow the line and column
    from turn to turn"""
    out = []
    seen = set()
    for o in x.outs:
        for e in o[1].events:
            if e.kind != "loopend" or id(e.d["info"]) in seen:
                continue
            info = e.d["info"]
            seen.add(id(info))
            if e.d["step"] != 1 or "closed" not in info or all(r is not None for r in info["closed"].values()):
                continue
            cs = [q for t in info["transitions"] for q in t["pc"]] + [q for oo in x.outs for q in oo[1].pc]
            ls = {r for r in (offset_of(q, x.p[0]) for q in cs) if r}
            ks = {r for r in (offset_of(q, x.p[1]) for q in cs) if r}
            if len(ls) > 1 or len(ks) != 1:
                continue
            if not ls:
                ls = {(lv, 0) for lv, r in info["closed"].items() if r is not None and r.op == "countif"}
                if len(ls) != 1:
                    continue
            (lvl, cl), (lvc, cc) = next(iter(ls)), next(iter(ks))
            if lvl in info["closed"] and lvc in info["closed"]:
                for rest in (False, True):
                    tr = lvl, I_(cl), lvc, I_(cc), rest
                    if follows(obs, x, info, *tr):
                        out.append(tr)
                        break
    return out


def I_(n):
    return T("int", n)


def follows(obs, x, info, lvl, cl, lvc, cc, rest):
    k = info["index"][0]
    st0 = info["transitions"][0]["state"] if info["transitions"] else None
    if st0 is None:
        return False
    # at the start both are zero
    if info["lvs"][lvl][1] is not cl or info["lvs"][lvc][1] is not cc:
        return False
    good = True
    G = T("graphemes", x.s.C, TRUE)
    nl = le0(sub(T("gcls", T("at", G, k)), I1))
    want = add(x.p[0], cl)
    for t in info["transitions"]:
        l, c = counts(x.I, x, t["state"], k)
        for s in with_tracked(x, t["state"], lvl, cl, lvc, cc, rest, l, c):
            for s2, ends in truth(s, nl):
                l2, c2 = (add(l, I1), Z0) if ends else (l, add(c, I1))
                a, b = t["next"][lvl], t["next"][lvc]
                for s3, on in truth(s2, ieq(l2, x.p[0])):
                    for s4, beyond in truth(s3, lt(x.p[0], l2)):
                        need = [lt(want, a)] if beyond else [ieq(a, add(l2, cl))]
                        if rest and not beyond and not on:
                            need.append(ieq(b, cc))
                        if on:
                            need.append(ieq(b, add(c2, cc)))
                        for q in need:
                            d = s4.facts.decide(q)
                            if d is True:
                                continue
                            good = False
                            if not rest and d is False and cleanly(s4, a, b):
                                obs.decide(False, "found", where(x.f), "the line and column counted do not follow the clusters: a turn counts %s, %s from %s, %s" % (show(a, 4), show(b, 4), show(lvl, 4), show(lvc, 4)), path_of(s4), key="track@" + x.f["item"])
    return good


def cleanly(st, *ts):
    if st.unk:
        return False
    for t in list(st.pc) + [t for t in ts if t is not None]:
        for y in subterms(t):
            if y.op in ("unk", "undef", "bad"):
                return False
    return True


def judge(obs, x, st, found, v):
    I, f = x.I, x.f
    if found:
        ks = indices(x, st, v)
        if not ks:
            # counters that are not understood leave it open
            understood = cleanly(st, v) and not loose(x, st)
            obs.decide(False if understood else None, "found", where(f), "a position is resolved%s where its line and column are not known to match" % (" to " + show(v, 6) if v is not None else ""), path_of(st), key="found@" + f["item"])
            return None
        obs.ok("found", where(f))
        if v is None:
            return None
        fl = set()
        for k, off in ks:
            if equal(I, st, v, off) is True:
                fl.add("content")
            for s2, behind in truth(st, le(x.s.g, off)):
                want = add(off, x.s.L) if behind else off
                if equal(I, s2, v, want) is not True:
                    break
            else:
                fl.add("data")
        if fl:
            obs.ok("offset", where(f))
            return fl
        # a gap of length zero makes both the same; otherwise the offset is wrong
        obs.decide(False if cleanly(st, v) else None, "offset", where(f), "the position of cluster %s is resolved to %s" % (show(ks[0][0], 4), show(v, 6)), path_of(st), key="offset@" + f["item"])
        return None
    missed(obs, x, st)
    return None


def loose(x, st):
    """does the path compare the position with a count that has no closed form?"""
    for c in st.pc:
        ts = set(subterms(c))
        if (x.p[0] in ts or x.p[1] in ts) and any(t.op == "lv" for t in ts):
            # an index is fine, a count is not
            for t in ts:
                if t.op == "lv" and not any(u.op in ("countif", "since", "goff") and t in u.args for u in ts):
                    return True
    return False


def refuted(x, st, line, col):
    """is it impossible that the position looked for is (line, col) here?"""
    for tr in x.tracked:
        ok = True
        for s in with_tracked(x, st, *tr, line, col):
            if s.assume(ieq(line, x.p[0])) and s.assume(ieq(col, x.p[1])):
                ok = False
        if ok:
            return True
    s2 = st.copy()
    if not s2.assume(ieq(line, x.p[0])):
        return True
    return not s2.assume(ieq(col, x.p[1]))


def beyond_text(x, st):
    """is the line or column beyond any the text can have?"""
    G = T("graphemes", x.s.C, TRUE)
    occ, n = T("occ", x.s.C, T("str", "\n")), T("len", G)
    s = st.copy()
    for q in (le(occ, n), le(n, x.s.n), le(x.p[0], occ), le(x.p[1], n)):
        if not s.assume(q):
            return True
    # the other counts of the text that the path mentions
    for t in {y for c in s.pc for y in subterms(c) if y.op == "len" and y.args[0].op in ("chars", "graphemes", "lines") and x.s.C is y.args[0].args[0]}:
        low, high = {"chars": (n, x.s.n), "graphemes": (n, x.s.n), "lines": (occ, add(occ, I1))}[t.args[0].op]
        if not (s.assume(le(low, t)) and s.assume(le(t, high))):
            return True
    return False


def missed(obs, x, st):
    I, f = x.I, x.f
    G = T("graphemes", x.s.C, TRUE)
    n = T("len", G)
    loops = [e for e in st.events if e.kind == "loopend"]
    why = None
    if not loops and beyond_text(x, st):
        obs.ok("missed", where(f))
        return
    if not loops:
        # the path must not depend on the text then: nothing was looked at
        why = "no cluster was looked at"
        v = None if not cleanly(st) else False
        obs.decide(v, "missed", where(f), "a position is reported as missing although %s" % why, path_of(st), key="missed@" + f["item"])
        return
    for e in loops:
        info, k0, step, end = e.d["info"], e.d["k0"], e.d["step"], e.d["end"]
        k = info["index"][0]
        if step != 1 or "closed" not in info:
            why = why or (None, "loop not understood")
            continue
        if not st.facts.entails_eq0(k0):
            why = (False, "the first clusters are not looked at")
            continue
        cl = info["closed"]
        bad = None
        for t in info["transitions"]:
            s = t["state"].copy()
            for lv, r in cl.items():
                if r is not None and r.op != "overw":
                    s.facts.assume(ieq(lv, r))
            l, c = counts(I, x, s, k)
            if not refuted(x, s, l, c):
                bad = t
        if bad is not None:
            why = (False if all(r is not None for r in cl.values()) else None, "a turn of the loop goes on although the position may be there")
            continue
        # beyond the last turn
        if st.facts.entails_eq0(sub(end, n)):
            l, c = at_end(x)
            if refuted(x, st, l, c):
                obs.ok("missed", where(f))
                return
            why = (False if cleanly(st) and not loose(x, st) else None, "it may be the end of the text")
            continue
        # stopped early: the lines seen must already be too many
        l, c = counts(I, x, st, end)
        here = refuted(x, st, l, c)
        G_at = T("gcls", T("at", G, end))
        nl = st.facts.decide(le0(sub(G_at, I1))) is True
        beyond = st.facts.decide(lt(x.p[0], add(l, I1) if nl else l)) is True
        if here and beyond:
            obs.ok("missed", where(f))
            return
        why = (False if cleanly(st) and not loose(x, st) else None, "the rest of the text is not looked at")
    v, what = why
    obs.decide(v, "missed", where(f), "a position is reported as missing although %s" % what, path_of(st), key="missed@" + f["item"])
