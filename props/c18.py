"""TokenIterator::next is interpreted on an arbitrary iterator state: a line partly consumed or none, any number of scope
changes of the parser left, any text to come. Lines come as C17 shows the line iterator to give them; the parser and the
scope stack are syntect's and stand for themselves. The loop that applies scope changes is summarised as a fold over those
it takes. Every path must keep to the state machine that gives the text back: a lexeme is the text from where the line
stands to where it stands afterwards, less the line feed, at the position of its first character and with the scopes
folded so far; a line break is given only when the line is used up, and then the next line is loaded whole."""
from .common import *
from .buf import Z0, I1
from absint.interp import Interp
from absint.models import rd, app, SOME, NONE, OK, place_of, deep, fork
from absint import models

ASSUMPTIONS = ["syntect gives scope changes in text order at character boundaries within the line it was given", "lines are what C17 shows them to be"]
LI = "util::line_iterator::LineIterator"


class World(Interp):
    def __init__(self, ctx):
        nxt, new = ctx.method("LineIterator", "next", "Iterator"), ctx.method("LineIterator", "new")
        super().__init__(ctx.dump, {canon(nxt["name"]): p_next, canon(new["name"]): p_new}, models)
        self.lines_of = {}

    def sym_struct(self, st, tid, name, over, depth):
        if self.types[tid].get("path", "").split("::")[-1] == "LineIterator":
            return T("sym", name, tid)
        return None

    def one_line(self, st, s):
        return s in self.lines_of.values() or s.op == "app" and s.args[0] == "line_text"

    def on_elem(self, st, base, k):
        base = base.args[0] if base.op == "rev" else base
        line = self.lines_of.get(base)
        if line is None and base.op == "vf" and base.args[0].op == "app" and base.args[0].args[0] == "parse_line":
            line = base.args[0].args[2]
        if line is not None:
            st.facts.assume(le(T("fld", T("at", base, k), 0), self.seq_len(line)))
            st.facts.assume(le(Z0, T("fld", T("at", base, k), 0)))
            st.facts.assume(models.boundary(self, st, line, T("fld", T("at", base, k), 0)))


def p_new(I, st, args, ct):
    return app("lines", rd(I, st, args[0]))


def p_next(I, st, args, ct):
    root, proj = place_of(I, st, args[0])
    old = I.read(st, root, proj)
    out = []
    for s2, b in I.branch(st, app("lines_over", old)):
        if b:
            out.append(("ret", s2, NONE))
        else:
            I.write(s2, root, proj, app("lines_after", old))
            out.append(("ret", s2, SOME(T("tuple", app("line_number", old), T("vref", app("line_text", old))))))
    return out


class Lay:
    def __init__(self, ctx):
        self.tid = tid = ctx.adt("token_iterator::TokenIterator")
        self.ok = tid is not None
        if not self.ok:
            return
        ty = ctx.types

        def one(pred, hint=()):
            fs = ctx.field_by(tid, pred)
            if len(fs) > 1:
                fs = [i for i in fs if any(h in ctx.fields(tid)[i][0] for h in hint)]
            if len(fs) != 1:
                self.ok = False
                return None
            return fs[0]

        def path(t):
            return t.get("path", "").split("::")[-1]
        self.scopes = one(lambda n, t: path(t) == "ScopeStack")
        self.parser = one(lambda n, t: path(t) == "ParseState")
        self.lines = one(lambda n, t: path(t) == "LineIterator")
        self.cur = one(lambda n, t: path(t) == "Option" and ty[t["args"][0]]["k"] == "ref", ("line",))
        self.at = one(lambda n, t: t["s"] == "usize", ("byte", "offset"))
        self.pos = one(lambda n, t: path(t) == "Position", ("current",))
        self.events = one(lambda n, t: path(t) == "Vec" and "ScopeStackOp" in t["s"])
        self.error = one(lambda n, t: path(t) == "Option" and ty[t["args"][0]]["k"] != "ref")
        self.syn = one(lambda n, t: t["k"] == "ref" and "SyntaxSet" in t["s"])


class It:
    def __init__(self, I, st, v, L):
        v = I.force(st, I.val(st, v))
        self.ok = v.op == "adt"
        if not self.ok:
            return
        g = lambda i: I.val(st, I.project(st, v, ("f", i)))
        self.scopes, self.parser, self.lines = g(L.scopes), g(L.parser), g(L.lines)
        self.cur, self.at, self.events, self.error = g(L.cur), g(L.at), g(L.events), g(L.error)
        self.pos = position(I, st, I.force(st, g(L.pos)))
        self.syn = rd(I, st, g(L.syn))


def self_val(I, st, a):
    return I.read(st, a[0].args[0], tuple(a[0].args[1:]))


def check(ctx, obs, tier):
    L = Lay(ctx)
    nxt = ctx.method("TokenIterator", "next", "Iterator")
    new = ctx.method("TokenIterator", "new")
    if not L.ok or nxt is None or new is None:
        obs.dunno("anchor", "TokenIterator", "not found or representation not understood")
        return
    for f in ctx.methods("TokenIterator"):
        if f.get("impl_trait") and f["item"] != "next":
            obs.dunno("anchor", where(f), "an iterator method of its own, which is not analysed")
    step(ctx, obs, nxt, L)
    start(ctx, obs, new, L)
    token_set(ctx, obs)


class Say:
    def __init__(self, obs, f):
        self.obs, self.f = obs, f

    def __call__(self, v, rule, msg, st, key=None):
        self.obs.decide(unsure(st, v, True), rule, where(self.f), msg, path_of(st), key=rule + ":" + (key or self.f["item"]))


def line_of(I, st, cur):
    """[(state, the line in hand or None)]"""
    return [(s, None if p is None else deref(I, s, p)) for s, p in opt(I, st, cur)]


def deref(I, st, p):
    v = rd(I, st, p)
    return T("deref", v) if v is p and v.op in ("vf", "fld", "sym") else v


def end_of(I, st, line):
    """[(state, where the line ends without its line feed)]"""
    n = I.seq_len(line)
    return [(s, sub(n, I1) if b else n) for s, b in truth(st, models.str_test(I, st, "ends_with", line, T("str", "\n")))]


def step(ctx, obs, f, L):
    say = Say(obs, f)

    def setup(I, st, a):
        v = I.force(st, self_val(I, st, a))
        t = It(I, st, v, L)
        line = deref(I, st, T("vf", t.cur, 1, 0))
        I.lines_of[t.events] = line
        st.facts.assume(le(t.at, I.seq_len(line)))
        st.facts.assume(models.boundary(I, st, line, t.at))
        # kept by every step, see below
        st.facts.assume(ieq(t.pos[1], column(I, st, line, t.at)))
    I, st0, a, outs = analyse(ctx, obs, f, World(ctx), setup=setup)
    t0 = It(I, st0, self_val(I, st0, a), L)
    no_panic(obs, f, outs)
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        t1 = It(I, st, self_val(I, st, a), L)
        if not t1.ok or not t0.ok:
            say(None, "state", "the iterator afterwards is not understood", st)
            continue
        say(equal(I, st, t1.syn, t0.syn), "syntaxes", "goes on with other syntax definitions", st)
        turns(I, st, t0, say)
        used = [e for e in st.events if e.kind == "mutapp"]
        for s2, tok in opt(I, st, o[2]):
            fails = [e for e in used if s2.facts.decide(T("isvar", app(e.op, e.old, *e.args), 0)) is not True]
            if tok is None:
                # the stream ends: by an error, or because there is nothing left
                if fails:
                    say(all(s2.facts.decide(T("isvar", app(e.op, e.old, *e.args), 1)) is True for e in fails), "error", "the outcome of %s is not looked at" % fails[0].op, s2, "ignored")
                    for s3, e in opt(I, s2, t1.error):
                        say(e is not None, "error", "an error ends the stream but is not kept", s3, "lost")
                    continue
                for s3, used_up in exhausted(I, s2, t0):
                    say(used_up, "early-end", "the stream ends although the line in hand is not used up", s3)
                say(s2.facts.decide(app("lines_over", t0.lines)) is True, "early-end", "the stream ends although lines are left", s2, "lines")
                for s3, l in line_of(I, s2, t1.cur):
                    for s4, e in ([(s3, None)] if l is None else end_of(I, s3, l)):
                        say(l is None or s4.facts.decide(le(e, t1.at)) is True and equal(I, s4, t1.events, T("nil")) is True, "ends", "the stream goes on after it has ended", s4)
                continue
            for e in fails:
                say(False, "error", "a token is given although the outcome of %s %s" % (e.op, "is an error" if s2.facts.decide(T("isvar", app(e.op, e.old, *e.args), 1)) else "was not looked at"), s2, e.op)
            tok = I.force(s2, I.val(s2, tok))
            if tok.op != "adt":
                say(None, "token", "the token is not understood", s2)
                continue
            name = I.types[L_variant(I, tok)]["variants"][tok.args[1]]["name"] if L_variant(I, tok) is not None else None
            if name == "Newline":
                newline(I, s2, t0, t1, say)
            elif name == "Lexeme":
                lexeme(I, s2, t0, t1, tok.args[2], say)
            else:
                say(None, "token", "the token is not understood", s2)


def L_variant(I, tok):
    for i, t in enumerate(I.types):
        if t and t["k"] == "adt" and t.get("path") == tok.args[0]:
            return i
    return None


def exhausted(I, st, t0):
    """[(state, is the line in hand at the start used up?)]"""
    out = []
    for s2, l in line_of(I, st, t0.cur):
        if l is None:
            out.append((s2, True))
            continue
        for s3, e in end_of(I, s2, l):
            out.append((s3, s3.facts.decide(le(e, t0.at)) is True))
    return out


def newline(I, st, t0, t1, say):
    for s2, used_up in exhausted(I, st, t0):
        say(used_up, "line-break", "a line break is given although the line in hand is not used up", s2)
        scopes = t1.scopes
        x = fold_of(scopes, t0)
        say(equal(I, s2, scopes, t0.scopes) is True or (x is not None and (s2.facts.decide(ieq(x, Z0)) is True)) or (None if taint(scopes) and x is None else False), "scopes-kept", "scope changes left on the line are not applied before the next line", s2)
    loaded(I, st, t1, t0.lines, t0.parser, t0.syn, say, "line-break")


def loaded(I, st, t1, lines, parser, syn, say, rule):
    """the next line is in hand, whole"""
    if st.facts.decide(app("lines_over", lines)) is not False:
        say(None if taint(lines) else False, rule, "no line is taken", st, "none")
        return
    text = app("line_text", lines)
    parse = app("parse_line", parser, text, syn)
    for s2, l in line_of(I, st, t1.cur):
        say(l is not None and equal(I, s2, l, text), rule, "the line in hand is not the next one", s2, "next")
    say(equal(I, st, t1.lines, app("lines_after", lines)), rule, "lines are skipped", st, "skipped")
    say(equal(I, st, t1.at, Z0), rule, "the next line is not taken from its beginning", st, "start")
    say(t1.pos is not None and equal(I, st, t1.pos[0], app("line_number", lines)), rule, "tokens of the line get line number %s" % (t1.pos and show(t1.pos[0], 5)), st, "number")
    say(t1.pos is not None and equal(I, st, t1.pos[1], Z0), rule, "the first token of the line gets offset %s" % (t1.pos and show(t1.pos[1], 5)), st, "offset")
    say(equal(I, st, t1.parser, app("parse_line'", parser, text, syn)), rule, "the parser does not follow the lines", st, "parser")
    evs = T("vf", parse, 0, 0)
    got, want = I.norm_seq(st, t1.events), I.norm_seq(st, I.seq_cat(st, T("nil"), T("rev", evs)))
    say(True if got is want or t1.events is T("rev", evs) or equal(I, st, got, want) else equal(I, st, got, want), rule, "the scope changes kept for the line are %s" % show(got, 5), st, "events")


def fold_of(scopes, t0):
    """the number of scope changes left when the scopes are those folded from the ones at the start"""
    if scopes.op != "fold":
        return None
    body, init, k0, k, d = scopes.args
    if init is not t0.scopes or body.op != "app" or body.args[0] != "scope_apply'" or d is not I_(-1):
        return None
    return k


I_ = I


def elem(t0, k):
    return T("at", t0.events, sub(k, I1))


def turns(I, st, t0, say):
    """a turn that does not give a token out applies the next scope change, which lies before the text in hand"""
    for e in st.events:
        if e.kind != "loop" or not e.info["transitions"]:
            continue
        for tr in e.info["transitions"]:
            s = tr["state"]
            taken = [x for x in tr["events"] if x.kind == "mutapp" and x.op == "scope_apply"]
            for x in taken:
                ev = x.args[0]
                if ev.op == "fld" and ev.args[0].op == "at" and ev.args[0].args[0] is t0.events:
                    v = s.facts.decide(le(T("fld", ev.args[0], 0), t0.at))
                    s2 = s.copy()
                    say(v is True, "scope-change", "a scope change after the text in hand is applied before that text is given out", s2)
                if s.facts.decide(T("isvar", app(x.op, x.old, *x.args), 0)) is not True:
                    # understood whatever the loop does elsewhere: going on without keeping the error anywhere
                    res = app(x.op, x.old, *x.args)
                    kept = any(has_term(v, res) for v in tr["next"].values()) or any(has_term(v, res) for r, v in s.store.items() if r in st.store)
                    say.obs.decide(None if s.unk or kept else False, "error", where(say.f), "after applying a scope change that may fail the rest of the line is gone on with", path_of(s), key="error:scope_apply")


def has_term(t, x):
    if t is x:
        return True
    return any(has_term(a, x) for a in (t.args if isinstance(t, Term) else t if isinstance(t, tuple) else ()))


def lexeme(I, st, t0, t1, v, say):
    v = I.force(st, I.val(st, v))
    lex = fields_of(I, v)
    if lex is None:
        say(None, "token", "the lexeme is not understood", st)
        return
    value, scope, pos = rd(I, st, lex["value"]), I.val(st, lex["scope"]), position(I, st, lex["position"])
    for s2, line in line_of(I, st, t0.cur):
        if line is None:
            say(False, "lexeme", "a lexeme is given although there is no line in hand", s2, "none")
            continue
        for s3, end in end_of(I, s2, line):
            say(pos is not None and both(equal(I, s3, pos[0], t0.pos[0]), equal(I, s3, pos[1], t0.pos[1])), "position", "the lexeme is placed at %s instead of where the line stands" % (pos and show(pos[1], 5)), s3)
            left(I, s3, t0, t1, value, scope, line, end, say)


def column(I, st, line, k):
    """the number of characters a line begins with up to a byte offset"""
    s = I.seq_slice(st, line, Z0, k)
    return T("len", T("graphemes", s, TRUE)) if s.op != "nil" else Z0


def both(*vs):
    return False if False in vs else (None if None in vs else True)


def left(I, st, t0, t1, value, scope, line, end, say):
    k = fold_of(scope, t0)
    if equal(I, st, scope, t0.scopes) is True:
        k = I.seq_len(t0.events)
    if k is None:
        say(None if taint(scope) else False, "scopes", "the lexeme's scopes are %s" % show(scope, 6), st)
        return
    # the scope changes not applied yet lie after where the line stands
    more = st.facts.decide(le(I1, k))
    for s2, some in [(st, more)] if more is not None else truth(st, le(I1, k)):
        if some:
            ev = T("fld", elem(t0, k), 0)
            I.on_elem(s2, t0.events, sub(k, I1))
            say(s2.facts.decide(lt(t0.at, ev)) is True, "scopes", "a lexeme is given before the scope changes at its beginning are applied", s2, "late")
            stop = [(s3, ev if b else end) for s3, b in truth(s2, le(ev, end))]
        else:
            ev, stop = None, [(s2, end)]
        for s3, m in stop:
            want = I.seq_slice(s3, line, t0.at, m)
            say(equal(I, s3, value, want), "text", "the lexeme is %s where the text is %s" % (show(value, 6), show(want, 6)), s3)
            for s4, l1 in line_of(I, s3, t1.cur):
                if l1 is None:
                    say(equal(I, s4, m, end), "text", "the line is left although text is left on it", s4, "left")
                    say(ev is None, "scopes-kept", "the line is left although scope changes are left on it", s4, "left")
                    say(equal(I, s4, t1.lines, t0.lines), "line-break", "a line is passed over", s4, "passed")
                    continue
                say(equal(I, s4, l1, line), "text", "goes on with another line", s4, "other")
                say(equal(I, s4, t1.lines, t0.lines), "line-break", "a line is passed over", s4, "passed")
                say(equal(I, s4, t1.parser, t0.parser), "scopes-kept", "the parser's state changes in the middle of a line", s4, "parser")
                ok = equal(I, s4, t1.at, m)
                if ok is False and s4.facts.decide(le(end, t1.at)) is True and s4.facts.decide(le(end, m)) is True and s4.facts.decide(le(t1.at, I.seq_len(line))) is True:
                    ok = True
                say(ok, "text", "after a lexeme up to %s the line stands at %s" % (show(m, 5), show(t1.at, 5)), s4, "next")
                n = column(I, s4, line, m)
                say(t1.pos is not None and both(equal(I, s4, t1.pos[0], t0.pos[0]), equal(I, s4, t1.pos[1], n)), "position", "the next lexeme's offset is %s" % (t1.pos and show(t1.pos[1], 6)), s4, "next")
                # what remains, and the scopes that belong to it
                rest = [k] if ev is None else [k, sub(k, I1)]
                good = None if taint(t1.events) and not has_op(t1.events, "sl") else False
                for j in rest:
                    if equal(I, s4, t1.events, I.seq_slice(s4, t0.events, Z0, j)) is True:
                        w = scope if j is k else app("scope_apply'", scope, T("fld", elem(t0, k), 1))
                        good = equal(I, s4, t1.scopes, w)
                        if good is True and j is not k:
                            good = s4.facts.decide(le(T("fld", elem(t0, k), 0), t1.at)) is True
                say(good, "scopes", "after the lexeme the scopes do not match the scope changes left", s4, "after")


def fields_of(I, v):
    if v.op != "adt":
        return None
    t = L_variant(I, v)
    if t is None:
        return None
    fs = I.types[t]["variants"][v.args[1]]["fields"]
    return {f[0]: v.args[2 + i] for i, f in enumerate(fs)}


def start(ctx, obs, f, L):
    say = Say(obs, f)
    I, st0, a, outs = analyse(ctx, obs, f, World(ctx))
    no_panic(obs, f, outs)
    data, syn = rd(I, st0, a[0]), rd(I, st0, a[2])
    lines = app("lines", data)
    for o in outs:
        if o[0] != "ret":
            continue
        st = o[1]
        v = I.force(st, I.val(st, o[2]))
        if v.op != "adt" or not v.args[0].endswith("Result"):
            say(None, "start", "the result is not understood", st)
            continue
        used = [e for e in st.events if e.kind == "mutapp"]
        bad = [e for e in used if st.facts.decide(T("isvar", app(e.op, e.old, *e.args), 0)) is not True]
        if v.args[1] == 1:
            say(bool(bad), "start", "fails although nothing has failed", st, "fails")
            continue
        for e in bad:
            say(False, "error", "tokens are given although the outcome of %s was not looked at" % e.op, st, e.op)
        t1 = It(I, st, v.args[2], L)
        if not t1.ok:
            say(None, "start", "the iterator is not understood", st)
            continue
        for s2, e in opt(I, st, t1.error):
            say(e is None, "start", "starts with an error", s2, "error")
        say(t1.scopes is app("syntect::parsing::ScopeStack::new"), "start", "starts with scopes %s" % show(t1.scopes, 4), st, "scopes")
        say(equal(I, st, t1.syn, syn), "start", "uses other syntax definitions", st, "syntaxes")
        if st.facts.decide(app("lines_over", lines)) is True:
            for s2, l in line_of(I, st, t1.cur):
                say(l is None, "start", "starts with a line that does not exist", s2, "line")
            continue
        loaded(I, st, t1, lines, app("syntect::parsing::ParseState::new", rd(I, st, a[1])), syn, say, "start")


def token_set(ctx, obs):
    new, it, make = ctx.method("TokenSet", "new"), ctx.method("TokenSet", "iter"), ctx.method("TokenIterator", "new")
    if new is None or it is None:
        obs.dunno("anchor", "TokenSet", "not found")
        return
    I, st0, a, outs = analyse(ctx, obs, new, World(ctx))
    no_panic(obs, new, outs)
    rets = [o for o in outs if o[0] == "ret"]
    args = [rd(I, st0, x) for x in a]
    W = World(ctx)
    W.prims[canon(make["name"])] = lambda I, st, args, ct: app("token_iterator", *[rd(I, st, x) for x in args])
    J, sj, b, outs2 = analyse(ctx, obs, it, W)
    no_panic(obs, it, outs2)
    say = Say(obs, it)
    for o in rets:
        v = I.force(o[1], I.val(o[1], o[2]))
        for p in outs2:
            if p[0] != "ret":
                continue
            r = J.val(p[1], p[2])
            if r.op != "app" or r.args[0] != "token_iterator" or v.op != "adt":
                say(None if taint(r) or r.op != "adt" else False, "token-set", "the tokens are %s" % show(r, 5), p[1])
                continue
            s = J.force(p[1], J.val(p[1], J.read(sj, b[0].args[0], tuple(b[0].args[1:]))))
            src = {}
            for i, x in enumerate(s.args[2:]):
                src[rd(J, p[1], x)] = rd(I, o[1], v.args[2 + i])
            for i, what in enumerate(("text", "syntax definition", "set of definitions")):
                say(src.get(r.args[1 + i]) is args[i], "token-set", "the tokens are not made from the %s the set was given" % what, p[1], what)
