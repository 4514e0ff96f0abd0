"""Buffer::search is interpreted on an arbitrary buffer and needle. Its loops are summarised as a comprehension over
lines and user-perceived characters; for an arbitrary line and an arbitrary character of it, exactly the position with
these two numbers must be reported when the needle's bytes follow there within the line, and nothing otherwise."""
from .c26 import *

ASSUMPTIONS = ["str::lines yields the lines of the text without their endings", "offsets of clusters are where unicode-segmentation says they begin"]


def check(ctx, obs, tier):
    f = ctx.method("Buffer", "search")
    if not need(obs, f, "Buffer::search"):
        return
    I, st0, a, outs = run_buffer(ctx, obs, f)
    no_panic(obs, f, outs)
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        v0, v1 = View(ctx, I, with_facts(st0, st), a[0]), View(ctx, I, st, a[0])
        if not v1.ok or v0.text is None or v1.text is None:
            obs.dunno("accessor", where(f), "buffer not understood")
            continue
        unchanged(obs, I, st, f, v0, v1)
        needle = rd_text(I, st0, a[1])
        for v, msg in history(st.events, needle):
            obs.decide(v, "search-history", where(f), msg, path_of(st), key="search-history")
        got = I.val(st, o[2])
        for c in st.pc:
            if by_count(c) and any(has(got, x) for x in subterms(c) if x.op in ACC):
                obs.decide(None if st.unk else False, "search-stops", where(f), "the search ends early, depending on how many matches it has found: %s" % show(c, 4), path_of(st), key="search-stops")
        for v, rule, msg in judge(I, st, got, v0.text, needle):
            if v is False and (st.unk or any(murky(c) for c in st.pc)):
                v = None
            obs.decide(v, rule, where(f), msg, path_of(st), key=rule)


ACC = ("flat", "filt", "comp")


def by_count(c):
    """does a condition look at nothing but how many matches were collected before a loop was over?"""
    if c.op == "not":
        return by_count(c.args[0])
    if c.op not in ("le0", "eq0"):
        return False
    got = [x for x in subterms(c) if x.op in ACC]
    free = [x for x in atoms(c, lambda x: x.op == "len" and x.args[0].op in ACC)]
    return bool(got) and not free and any(x.op == "lv" for a in got for x in subterms(a.args[-1])) and has_number(c)


def has_number(c):
    """compared with a number above zero, not only for being empty"""
    t = c.args[0]
    return t.op == "lin" and any(isinstance(x, int) and x < -1 for x in t.args)


def atoms(t, stop):
    if isinstance(t, tuple):
        return [y for x in t for y in atoms(x, stop)]
    if not isinstance(t, Term):
        return []
    if stop(t) or t.op == "int":
        return []
    if t.op in ("lin", "le0", "eq0"):
        return [y for x in t.args for y in atoms(x, stop)]
    return [t]


def has(t, x):
    return any(y is x for y in subterms(t))


def history(events, needle, depth=0):
    """loops over characters in which an earlier match decides whether a later one is looked at: a variable that is
    set where the needle is found, has no closed form, and is tested on the way to what is reported"""
    out = []
    seen = set()
    for e in events:
        info = e.d.get("info") if e.kind in ("loop", "loopend") else None
        if not info or id(info) in seen or "transitions" not in info:
            continue
        seen.add(id(info))
        trs = info["transitions"]
        if depth < 4:
            for t in trs:
                out += history(t["events"], needle, depth + 1)
        if not info.get("iter") or "closed" not in info:
            continue
        seqs = [lv for lv in info["lvs"] if any(t["next"].get(lv) is not None and t["next"][lv].op in ("cat", "sl", "nil") for t in trs)]
        for lv in info["lvs"]:
            if lv in seqs or info["closed"].get(lv) is not None or lv is info["index"][0]:
                continue
            tested = any(mentions(c, lv) for t in trs for c in t["pc"])
            found = [t for t in trs if t["next"].get(lv) is not lv and any(c.op == "eq" and needle in subterms(c) for c in t["pc"])]
            other = [t for t in trs if t not in found and t["next"].get(lv) is lv]
            reports = any(t["next"][q] is not q for t in found for q in seqs)
            out.append((not (tested and found and other and reports), "whether a match is reported depends on where one was found before"))
    return out


def mentions(c, x):
    return any(y is x for y in subterms(c))


def rd_text(I, st, v):
    v = I.val(st, v)
    n = 0
    while v.op in ("ref", "vref", "deref") and n < 5:
        v = I.val(st, I.read(st, *I.deref_target(st, v))) if v.op != "deref" else v.args[0]
        n += 1
    return v


def emitted(I, t, binds=(), cond=TRUE):
    """[(loops, condition, value)] in the order of the sequence, or None when a part is not understood"""
    out = []
    for p in I.seq_pieces(t):
        if p.op == "el":
            out.append((binds, cond, p.args[0]))
            continue
        b, lo, hi = p, I.seq_len(p) if p.op not in ("sl",) else None, None
        if p.op == "sl":
            b, lo, hi = p.args
            if b.op not in ("filt", "flat", "comp") or lo is not Z0 or not same_len(I, b, hi):
                return None
        if b.op not in ("filt", "flat", "comp"):
            return None
        body, lo, hi = b.args[0], b.args[-2], b.args[-1]
        bv = binder(b, [x[0] for x in binds])
        rows = [(body.args[i], body.args[i + 1]) for i in range(0, len(body.args), 2)] if body.op == "cases" else [(TRUE, body)]
        loops = binds + ((bv, lo, hi),)
        if b.op == "flat":
            for c, x in rows:
                r = emitted(I, x, loops, conj(cond, c))
                if r is None:
                    return None
                out += r
        else:
            for c, x in rows:
                out.append((loops, conj(cond, c), x))
    return out


def same_len(I, b, hi):
    try:
        return I.seq_len(b) is hi
    except Exception:
        return False


def binder(b, outer):
    """the variable a comprehension binds: the outermost that is not bound further out"""
    n = -1
    for x in subterms(b.args[0]):
        if x.op == "bv" and x not in outer:
            n = max(n, x.args[0] if x.args else 0)
    return T("bv", n) if n > 0 else T("bv")


def judge(I, st, got, text, needle):
    rows = emitted(I, got)
    if rows is None:
        return [(None, "search", "the result is not understood: %s" % show(got, 6))]
    out = []
    lines = T("lines", text)
    s0 = st.copy()
    i, j = T("param", "line"), T("param", "col")
    line = T("at", lines, i)
    g = T("graphemes", line, TRUE)
    off = T("goff", g, j)
    n, L = I.seq_len(needle), T("len", line)
    for c in (lt(i, T("len", lines)), lt(j, T("len", g)), lt(off, L)):
        s0.facts.assume(c)
    fits = le(add(off, n), L)
    here = T("eq", *sorted((needle, I.seq_slice(s0, line, off, add(off, n)))))
    insts = []
    for loops, c, v in rows:
        if len(loops) != 2:
            return [(None if odd(got) else False, "search", "matches are not looked for at every cluster of every line: %s" % show(got, 6))]
        (b1, lo1, hi1), (b2, lo2, hi2) = loops
        m = {b1: i, b2: j}
        lo2, hi2 = subst(lo2, {b1: i}), subst(hi2, {b1: i})
        for x, want, what in ((lo1, Z0, "first line"), (hi1, T("len", lines), "last line"), (lo2, Z0, "first cluster"), (hi2, T("len", g), "last cluster")):
            q = s0.facts.decide(ieq(x, want)) is True
            if not q and hi1 is x and any(y.op == "app" and y.args[0] == "ends_with" or "strip" in str(y.args[:1]) or "trim" in str(y.args[:1]) for r in rows for z in r[1:] for y in subterms(z)):
                return [(None, "search-range", "lines are taken apart in a way that is not understood")]
            out.append((True if q else (None if odd(x) or s0.facts.decide(ieq(x, want)) is not False and not domain(x) else False), "search-range", "the search does not go from the %s but to %s" % (what, show(x, 6)) if what.startswith("first") else "the search ends at %s instead of the %s" % (show(x, 6), what)))
        insts.append((subst(c, m), subst(v, m)))
    if any(x[0] is not True for x in out):
        return out
    for match, cs in ((True, (fits, here)), (False, (fits, neg(here))), (False, (neg(fits),))):
        s1 = s0.copy()
        if not all(s1.facts.assume(c) for c in cs):
            continue
        for s2, fired in firing(s1, insts, 0):
            extra = [c for c in s2.pc[len(s0.pc):] if not known_cond(c, needle, line, match)]
            sure = not any(odd(c) for c in extra) and not any(inner(c) for c, _ in insts) and (not any(opaque(c, match, needle) for c in extra) or not match and beginning(s2, extra, needle, n))
            if len(fired) != (1 if match else 0):
                q = False if sure else None
                out.append((q, "search", ("a match is reported %d times" % len(fired) if match else "a place where the needle is not is reported") + (" when " + " and ".join(show(c, 5) for c in extra) if extra else "")))
            elif match:
                v = fired[0]
                ok = v.op == "adt" and len(v.args) == 4 and equal(I, s2, v.args[2], i) is True and equal(I, s2, v.args[3], j) is True
                out.append((True if ok else (None if odd(v) else False), "search-position", "a match on line %s at column %s is reported as %s" % (show(i), show(j), show(v, 5))))
            else:
                out.append((True, "search", ""))
    return out


def domain(x):
    """an end of an iteration over another sequence that is understood"""
    return x.op in ("int",) or x.op == "len" and x.args[0].op in ("lines", "split", "chars", "graphemes", "sym", "fld", "at", "matches")


def odd(t):
    return any(isinstance(x, Term) and x.op in ("unk", "lv") for x in subterms(t))


def inner(c):
    """does a condition mention where a loop over a cluster's text got to? What that loop has seen is not known"""
    return any(isinstance(x, Term) and x.op == "lv" for x in subterms(c))


LOOSE = ("eq_ignore_ascii_case",)  # comparisons that hold of texts which differ

FOLD = ("to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase", "trim", "trim_end", "trim_start")


TRIM = ("trim_matches", "trim_end_matches", "trim_start_matches")


def opaque(c, match=True, needle=None):
    if not match and c.op == "app" and str(c.args[0]).split("::")[-1] in LOOSE:
        return False
    if not match and c.op == "eq" and all(isinstance(x, Term) and x.op == "app" and str(x.args[0]).split("::")[-1] in FOLD for x in c.args[:2]):
        return False
    if not match and needle is not None and changes(c, needle):
        return False
    return any(isinstance(x, Term) and x.op in ("app", "eq") for x in subterms(c))


def beginning(st, extra, needle, n):
    """is only the beginning of the needle compared with the text?"""
    eqs = [c for c in extra if any(isinstance(x, Term) and x.op == "eq" for x in subterms(c))]
    if len(eqs) != 1 or eqs[0].op != "eq" or any(c.op not in ("le0", "eq") for c in extra):
        return False
    ps = [x for x in eqs[0].args if x.op == "sl" and x.args[0] is needle]
    return len(ps) == 1 and ps[0].args[1] is Z0 and st.facts.decide(ieq(ps[0].args[2], n)) is None


def changes(c, needle):
    """whether a condition is about a changed needle in place of the needle: its length, or where it is"""
    def altered(x):
        return x.op == "app" and str(x.args[0]).split("::")[-1] in FOLD + TRIM and len(x.args) > 1 and x.args[1] is needle and all(isinstance(y, Term) and y.op in ("str", "int") for y in x.args[2:])
    found = [x for x in subterms(c) if isinstance(x, Term) and altered(x)]
    if not found:
        return False
    x = c.args[0] if c.op == "not" else c
    if x.op == "eq":
        return any(y in found for y in x.args[:2])
    return x.op in ("le0", "eq0") and all(y in found or not (y.op in ("app", "eq")) for y in subterms(x) if isinstance(y, Term))


def known_cond(c, needle, line, match):
    # where the needle is, a character ends after it; where it is not, that makes no difference
    x = c.args[0] if c.op == "not" else c
    return x.op == "app" and x.args[0] == "char_boundary"


def firing(st, insts, n):
    if n == len(insts):
        return [(st, [])]
    out = []
    c, v = insts[n]
    for s2, b in truth(st, c):
        if contradicts(s2, st):
            continue
        for s3, rest in firing(s2, insts, n + 1):
            out.append((s3, ([v] if b else []) + rest))
    return out


def contradicts(s2, st):
    """the needle ends at the end of a character wherever it is found"""
    eqs = [c for c, b in s2.facts.bools.items() if b and c.op == "eq"]
    for c, b in s2.facts.bools.items():
        if not b and c.op == "app" and c.args[0] == "char_boundary":
            for e in eqs:
                for x in e.args:
                    if x.op == "sl" and x.args[0] is c.args[1] and x.args[2] is c.args[2]:
                        return True
    return False
