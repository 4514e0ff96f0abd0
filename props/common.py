"""Obligations: what a property check proves, refutes or cannot decide."""
import re
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from absint.terms import *
from absint.interp import Budget, Split, State, Event, canon
from absint.ctx import Ctx

TAINT = ("unk", "lv", "undef", "bad")


def taint(t):
    """part of a value the analysis did not understand"""
    if isinstance(t, tuple):
        for x in t:
            r = taint(x)
            if r is not None:
                return r
        return None
    if not isinstance(t, Term):
        return None
    for op in TAINT:
        if has_op(t, op):
            return op
    return None


class Obs:
    def __init__(self, prop):
        self.prop = prop
        self.proved, self.violations, self.undecided = [], [], []
        self.fns, self.paths, self.loops, self.blocks = set(), 0, 0, 0
        self.assumed = set()
        self.anchors = 0

    def note(self, interp, outs=()):
        self.fns |= interp.stats["fns"]
        self.blocks += interp.stats["blocks"]
        self.loops += interp.stats["loops"]
        self.paths += len(outs)
        self.assumed |= interp.assumed

    def ran(self, f, I, st0, a, outs):
        """hook: a function was interpreted"""

    def ok(self, rule, where, detail=""):
        self.proved.append((rule, where, detail))

    def bad(self, key, where, msg, path=""):
        self.violations.append((key, where, msg, path))

    def dunno(self, rule, where, why):
        self.undecided.append((rule, where, why))

    def decide(self, verdict, rule, where, msg, path="", key=None):
        """verdict: True proved, False violated, None undecided"""
        if verdict is True:
            self.ok(rule, where)
        elif verdict is False:
            self.bad(key or rule + "@" + where.split(" ")[0], where, msg, path)
        else:
            self.dunno(rule, where, msg)
        return verdict


def where(f):
    return "%s (%s)" % (canon(f["name"]), f.get("span", "?"))


def path_of(st, limit=900):
    """the path condition of a state, for a report"""
    s = " and ".join(show(c, 5) for c in st.pc) or "always"
    return s[:limit]


def last_span(st):
    return "%s" % (st.where[1],)


def equal(I_, st, a, b):
    """are two understood values equal in this state? True / False / None"""
    a, b = I_.norm(st, I_.val(st, a)), I_.norm(st, I_.val(st, b))
    if a is b:
        return True
    if st.facts.entails_eq0(sub(a, b)):
        return True
    c = I_.eqv(st, a, b)
    d = st.facts.decide(c)
    if d is True:
        return True
    if d is False:
        return False
    if seq_equal(I_, st, a, b) or congruent(I_, st, a, b):
        return True
    if taint(a) or taint(b) or st.unk:
        return None
    return False


SEQ = ("cat", "nil", "sl", "el")


def seq_equal(I_, st, a, b):
    """the same pieces in the same order, with bounds that are equal in this state"""
    if not (a.op in SEQ or b.op in SEQ):
        return False
    pa, pb = ([p for p in I_.seq_pieces(I_.mkcat(st, I_.seq_pieces(x)))] for x in (a, b))
    if len(pa) != len(pb):
        return False
    for p, q in zip(pa, pb):
        if p is q:
            continue
        if p.op != q.op or (p.op == "el" and equal(I_, st, p.args[0], q.args[0]) is not True):
            return False
        if p.op == "sl" and not (p.args[0] is q.args[0] and st.facts.entails_eq0(sub(p.args[1], q.args[1])) and st.facts.entails_eq0(sub(p.args[2], q.args[2]))):
            return False
    return True


INT_OPS = ("int", "lin")


def congruent(I_, st, a, b):
    """the same operation on arguments that are equal in this state"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(congruent(I_, st, x, y) for x, y in zip(a, b))
    if not isinstance(a, Term) or not isinstance(b, Term):
        return a == b
    if a.op == b.op and a.op not in INT_OPS and len(a.args) == len(b.args) and a.args and all(congruent(I_, st, x, y) for x, y in zip(a.args, b.args)):
        return True
    try:
        return st.facts.entails_eq0(sub(a, b))
    except Exception:
        return False


def has_assumed_equal(st, c):
    return st.facts.decide(c) is True


def holds(I_, st, cond):
    """does a condition hold in this state? True / False (it can fail) / None"""
    d = st.facts.decide(cond)
    if d is not None:
        return d
    if taint(cond) or st.unk:
        return None
    return False


def clean(st):
    return not st.unk


# ---------------------------------------------------------------- running functions

def cases(st, a, b):
    """the feasible orderings of two integers: [(state, '<' | '=' | '>')]"""
    out = []
    for c, k in ((lt(a, b), "<"), (ieq(a, b), "="), (lt(b, a), ">")):
        s2 = st.copy()
        if s2.assume(c):
            out.append((s2, k))
    return out


def pos_cases(st, p, q):
    """the feasible orderings of two positions given as (line, offset)"""
    out = []
    for s2, k in cases(st, p[0], q[0]):
        if k != "=":
            out.append((s2, k))
        else:
            out.extend(cases(s2, p[1], q[1]))
    return out


def truth(st, cond):
    """[(state, bool)] for a condition"""
    d = st.facts.decide(cond)
    if d is not None:
        return [(st, d)]
    out = []
    for c, v in ((cond, True), (neg(cond), False)):
        for s2 in assume_all(st, c):
            out.append((s2, v))
    return out


def assume_all(st, c):
    """the states in which a condition holds (disjunctions are split)"""
    if c.op == "or":
        out, curs = [], [st]
        for x in c.args:
            nxt = []
            for cur in curs:
                out.extend(assume_all(cur, x))
                nxt.extend(assume_all(cur, neg(x)))
            curs = nxt
            if not curs:
                break
        return out
    if c.op == "and":
        sts = [st]
        for x in c.args:
            sts = [s3 for s2 in sts for s3 in assume_all(s2, x)]
        return sts
    s2 = st.copy()
    return [s2] if s2.assume(c) else []


def analyse(ctx, obs, f, I=None, over=None, setup=None, args=None):
    obs.anchors += 1
    I, st0, a, outs = ctx.run(f, I, over=over, setup=setup, args=args)
    obs.note(I, outs)
    obs.ran(f, I, st0, a, outs)
    if I.unmodelled:
        for o in outs:
            o[1].imprecise("no model of " + ", ".join(sorted(I.unmodelled)))
    return I, st0, a, outs


def need(obs, f, what):
    """a public function the property is about"""
    if f is None:
        obs.dunno("anchor", what, "function not found")
        return False
    return True


def no_panic(obs, f, outs, what="returns normally"):
    n = 0
    for o in outs:
        if o[0] == "panic":
            n += 1
            st = o[1]
            obs.decide(None if st.unk or any(taint(c) for c in st.pc) else False, "no-panic", where(f), "may panic: %s at %s" % (o[2], st.where[1]), path_of(st), key="panic@" + canon(f["name"]))
    if not n:
        obs.ok("no-panic", where(f))


def position(I, st, v):
    """(line, offset) of a Position value"""
    v = deep_val(I, st, v)
    if v.op == "adt" and len(v.args) == 4:
        return v.args[2], v.args[3]
    if v.op in ("sym", "vf", "fld", "unk", "lv"):
        return T("fld", v, 0), T("fld", v, 1)
    return None


def deep_val(I, st, v):
    return I.force(st, I.val(st, v))


def opt(I, st, v):
    """[(state, payload or None)] of an Option value"""
    v = deep_val(I, st, v)
    if v.op == "adt":
        return [(st, v.args[2] if v.args[1] == 1 else None)]
    out = []
    for i in (1, 0):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            out.append((s2, (I.force(s2, v).args[2] if I.force(s2, v).op == "adt" else T("vf", v, 1, 0)) if i else None))
    return out


def boolean(I, st, v):
    v = I.val(st, v)
    return v


def check_bool(obs, I, f, outs, expected, rule, what):
    """every returned bool equals expected(state) -> [(state, bool)]"""
    for o in outs:
        if o[0] != "ret":
            continue
        v = I.val(o[1], o[2])
        for s2, r in truth(o[1], v):
            for s3, e in expected(s2):
                verdict = True if r == e else (None if s3.unk or taint(v) or any(taint(c) for c in s3.pc) else False)
                obs.decide(verdict, rule, where(f), "%s: returns %s where %s is required" % (what, r, e), path_of(s3), key=rule + "@" + f["item"])


def text_rules(I, st):
    """what the state knows about occurrences in texts, as a rewriting rule"""
    found = {}
    for v, i in st.facts.variants.items():
        if v.op == "app" and v.args[0] in ("rfind", "find", "rsplit_once", "split_once") and len(v.args) == 3:
            found[(v.args[1], v.args[2])] = (v, i)

    def rule(x):
        if x.op == "lastseg":
            for s, p in ((x.args[0], x.args[1]),):
                h = found.get((s, p))
                if h is None:
                    return T("str", "") if s.op == "nil" else None
                v, i = h
                if i == 0:
                    return s
                if v.args[0] == "rfind":
                    n = I.seq_len(p)
                    return I.mkcat(st, [T("sl", s, add(T("vf", v, 1, 0), n), I.base_len(s))])
        if x.op == "occ":
            h = found.get((x.args[0], x.args[1]))
            if h is not None and h[1] == 0:
                return T("int", 0)
            if st.facts.decide(T("app", "contains", x.args[0], x.args[1])) is False:
                return T("int", 0)
        return None
    return rule


def equal_text(I, st, a, b):
    v = equal(I, st, a, b)
    if v is True:
        return v
    r = text_rules(I, st)
    return equal(I, st, rewrite(I.val(st, a), r), rewrite(b, r))


def unsure(st, v, index=False):
    """a difference counts only where the path itself is understood (with index: where an iterator stood is)"""
    if v is False:
        ok = ()
        if index:
            ok = {e.d["info"]["index"][0] for e in st.events if e.kind == "loopend" and e.d["info"].get("iter")}
        if st.unk or any(murky(c, ok) for c in st.pc):
            return None
    return v


def murky(t, ok=()):
    """does a condition depend on something that was not understood, or on where a loop stood?"""
    if isinstance(t, tuple):
        return any(murky(x, ok) for x in t)
    if not isinstance(t, Term) or t.op == "gapbytes" or t in ok:
        return False
    return t.op in ("lv", "unk", "undef", "bad") or any(murky(x, ok) for x in t.args)


def scalars(I, st, v, n=0):
    """the integers a plain value consists of"""
    v = deep_val(I, st, v)
    if v.op != "adt" or n > 3:
        return [v]
    return [x for y in v.args[2:] for x in scalars(I, st, y, n + 1)]


def plain(ctx, obs, ty, rule="copies"):
    """copying a plain value gives an equal one, and comparing two for equality compares all they hold"""
    f = ctx.method(ty, "clone", "Clone")
    if f is not None:
        I, st0, a, outs = analyse(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                obs.decide(same_scalars(I, o[1], o[2], a[0]), rule, where(f), "a copy of %s is %s" % (show(deep_val(I, o[1], a[0])), show(deep_val(I, o[1], o[2]))), path_of(o[1]), key=rule + "@" + ty)
    for name in ("eq", "ne"):
        f = ctx.method(ty, name, "PartialEq")
        if f is None:
            continue
        I, st0, a, outs = analyse(ctx, obs, f)
        no_panic(obs, f, outs)
        x, y = scalars(I, st0, a[0]), scalars(I, st0, a[1])

        def want(s, i=0, x=x, y=y, name=name):
            if i == len(x):
                return [(s, name == "eq")]
            return [z for s2, k in cases(s, x[i], y[i]) for z in (want(s2, i + 1) if k == "=" else [(s2, name == "ne")])]
        check_bool(obs, I, f, outs, want, "equality", ty + "::" + name)


def same_scalars(I, st, v, w):
    x, y = scalars(I, st, v), scalars(I, st, w)
    if len(x) != len(y):
        return None
    r = [equal(I, st, p, q) for p, q in zip(x, y)]
    return False if False in r else (None if None in r else True)


def origin(ctx, obs, f, rule):
    """a function that returns the start of the text"""
    I, st0, a, outs = analyse(ctx, obs, f)
    no_panic(obs, f, outs)
    for o in outs:
        if o[0] == "ret":
            p = position(I, o[1], o[2])
            r = [equal(I, o[1], x, T("int", 0)) for x in p] if p else [None]
            obs.decide(False if False in r else (None if None in r else True), rule, where(f), "gives position %s, not the start of the text" % show(p), path_of(o[1]), key=rule + "@" + f["item"])
