"""Adding, opening and re-assigning are interpreted on an arbitrary coherent workspace, and on every path the
syntax of the buffer concerned is compared with the documented one, computed from its path: the definition for
the extension, for the file name if there is no extension, plain text otherwise, all from the workspace's set.
The tokens returned are compared with the current buffer's text and definition, the errors with those required."""
from .ws import *
from .buf import *

ASSUMPTIONS = ["SyntaxSet::find_syntax_by_extension and find_syntax_plain_text find what they are documented to find"]


def check(ctx, obs, tier):
    if layout(ctx) is None:
        obs.dunno("layout", "Workspace", "fields of the workspace not understood")
        return
    for name in ("add_buffer", "open_buffer", "update_current_syntax", "current_buffer_tokens"):
        f = ctx.method("Workspace", name)
        if not need(obs, f, "Workspace::" + name):
            continue
        for empty in (True, False):
            os_, outs = outcomes(ctx, obs, f, empty, report=False)
            no_panic(obs, f, outs)
            for o in os_:
                if name in ("add_buffer", "open_buffer"):
                    added(ctx, obs, o)
                elif name == "update_current_syntax":
                    updated(ctx, obs, o)
                else:
                    tokens(ctx, obs, o)


def simple(t):
    return rewrite(t, lambda x: x.args[0] if x.op in ("deref", "vref", "unbox") and isinstance(x.args[0], Term) else None)


def decide(obs, o, st, v, rule, msg):
    if v is False and (st.unk or taint(o.L) or any(taint(c) for c in st.pc)):
        v = None
    obs.decide(v, rule, where(o.f), msg, path_of(st), key=rule + "@" + o.f["item"])


def error_kind(ctx, I, st, e):
    """name of the kind of an error value"""
    e = I.force(st, e)
    while e.op in ("adt", "err"):
        if e.op == "err":
            e = I.force(st, e.args[0])
            continue
        names = None
        for t in ctx.types:
            if t and t["k"] == "adt" and t.get("kind") == "enum" and t.get("path", "").endswith("ErrorKind") and t["path"] == e.args[0]:
                names = [v["name"] for v in t["variants"]]
        if names:
            return names[e.args[1]]
        if len(e.args) < 3:
            return None
        e = I.force(st, e.args[2])
    return None


class Known:
    """what a state knows, whatever references it was known through"""

    def __init__(self, st):
        self.st = st
        self.var = {simple(v): i for v, i in st.facts.variants.items()}
        self.truth = {}
        for c in st.pc:
            c = simple(c)
            if c.op == "not":
                self.truth[c.args[0]] = False
            else:
                self.truth[c] = True

    def copy(self):
        k = Known.__new__(Known)
        k.st, k.var, k.truth = self.st, dict(self.var), dict(self.truth)
        return k

    def variant(self, v):
        """[(knowledge, variant)]"""
        if v.op == "adt":
            return [(self, v.args[1])]
        if v in self.var:
            return [(self, self.var[v])]
        out = []
        for i in (0, 1):
            k = self.copy()
            k.var[v] = i
            out.append((k, i))
        return out

    def bool(self, c):
        if c in self.truth:
            return [(self, self.truth[c])]
        out = []
        for b in (True, False):
            k = self.copy()
            k.truth[c] = b
            out.append((k, b))
        return out


def payload(v, i=1):
    return v.args[2] if v.op == "adt" else T("vf", v, i, 0)


def documented(I, st, path, sset):
    """the definitions documented for a path: [{acceptable syntax terms}], over everything undetermined"""
    k = Known(st)
    path = simple(path)
    out = []
    for k1, i in k.variant(path):
        if i == 0:
            out.append((k1, plain(sset)))
            continue
        p = payload(path)
        e = T("app", "path:extension", p)
        for k2, j in k1.variant(e):
            if j == 1:
                x = payload(e)
                for k3, blank in k2.bool(T("app", "os:is_empty", x)):
                    if blank:
                        by_name(out, k3, p, sset)
                    else:
                        keys = [T("app", "os:to_string_lossy", x)]
                        s = T("app", "os:to_str", x)
                        if k3.var.get(s) == 1:
                            keys.append(payload(s))
                        looked_up(out, k3, keys, sset)
            else:
                by_name(out, k2, p, sset)
    return out


def plain(sset):
    return T("app", "syntect::parsing::SyntaxSet::find_syntax_plain_text", sset)


def by_name(out, k, p, sset):
    n = T("app", "path:file_name", p)
    for k1, i in k.variant(n):
        if i == 0:
            out.append((k1, plain(sset)))
            continue
        x = payload(n)
        s = T("app", "os:to_str", x)
        lossy = T("app", "os:to_string_lossy", x)
        if any(lossy in subterms(v) for v in k1.var):
            looked_up(out, k1, [lossy], sset)
            continue
        for k2, j in k1.variant(s):
            if j == 0:
                out.append((k2, plain(sset)))
            else:
                looked_up(out, k2, [payload(s)], sset)


def looked_up(out, k, keys, sset):
    q = [T("app", "syntect::parsing::SyntaxSet::find_syntax_by_extension", sset, x) for x in keys]
    q = [x for x in q if x in k.var] or q[:1]
    for k1, i in k.variant(q[0]):
        out.append((k1, payload(q[0]) if i == 1 else plain(sset)))


def judge_syntax(ctx, obs, o, st, b, rule):
    I, s = o.I, o.s
    sset = simple(s.get(I, st, "syntaxes"))
    path = bfield(s, I, st, b, "path")
    got = I.val(st, bfield(s, I, st, b, "syntax"))
    for k, want in documented(I, st, path, sset):
        if got.op != "adt":
            v = False
        elif got.args[1] == 0:
            v = False
        else:
            x = simple(deref_all(I, st, got.args[2]))
            v = x is want
        decide(obs, o, st, True if v else (None if taint(got) else False), rule, "the syntax assigned is %s where %s is documented" % (show(simple(got), 7), show(want, 6)))


def added(ctx, obs, o):
    I, s = o.I, o.s
    n0, n1 = I.seq_len(s.L), I.seq_len(o.L)
    for st, grown in truth(o.st, lt(n0, n1)):
        if not grown or o.j is None:
            continue
        buf = [x for (tid, name), x in zip(o.f["locals"][1:], o.a) if tid == s.lay["buf"]]
        for s2, b in forks(I, st, lambda z: I.force(z, I.seq_at(z, o.L, o.j))):
            if buf:
                syn0 = bfield(s, I, s2, buf[0], "syntax")
                for s3, x in opt(I, s2, syn0):
                    if x is not None:
                        got = bfield(s, I, s3, b, "syntax")
                        v = equal(I, s3, got, syn0)
                        if v is not True and got.op == "adt" and got.args[1] == 1:
                            v = equal(I, s3, got.args[2], x)
                        decide(obs, o, s3, v, "syntax-kept", "the definition of the buffer added is replaced by %s" % show(got, 6))
                    else:
                        judge_syntax(ctx, obs, o, s3, b, "syntax-assigned")
            else:
                judge_syntax(ctx, obs, o, s2, b, "syntax-assigned")


def updated(ctx, obs, o):
    I, s = o.I, o.s
    for st, ok, err in result_cases(I, o.st, o.ret):
        if s.empty:
            v = not ok and error_kind(ctx, I, st, err) == "EmptyWorkspace"
            decide(obs, o, st, v, "empty-error", "on an empty workspace the result is %s" % show(I.val(st, o.ret), 5))
            continue
        decide(obs, o, st, ok, "update-succeeds", "updating the syntax of the current buffer fails: %s" % show(I.val(st, o.ret), 5))
        if not ok or o.j is None:
            continue
        for s2, b in forks(I, st, lambda z: I.force(z, I.seq_at(z, o.L, o.j))):
            judge_syntax(ctx, obs, o, s2, b, "syntax-updated")


def tokens(ctx, obs, o):
    I, s = o.I, o.s
    for st, ok, x in result_cases(I, o.st, o.ret):
        if s.empty:
            v = not ok and error_kind(ctx, I, st, x) == "EmptyWorkspace"
            decide(obs, o, st, v, "empty-error", "on an empty workspace the result is %s" % show(I.val(st, o.ret), 5))
            continue
        for s2, b in forks(I, st, lambda z: I.force(z, I.seq_at(z, s.L, s.i))):
            syn = bfield(s, I, s2, b, "syntax")
            for s3, d in opt(I, s2, syn):
                if not ok:
                    v = d is None and error_kind(ctx, I, s3, x) == "MissingSyntax"
                    decide(obs, o, s3, v, "missing-error", "tokens fail with %s %s a definition" % (show(I.force(s3, x), 4), "without" if d is None else "in spite of"))
                    continue
                if d is None:
                    decide(obs, o, s3, False, "missing-error", "tokens are returned without a definition")
                    continue
                tokens_of(ctx, obs, o, s3, b, d, x)


def tokens_of(ctx, obs, o, st, b, d, x):
    I, s = o.I, o.s
    x = I.force(st, x)
    if x.op != "adt":
        decide(obs, o, st, None if taint(x) else False, "tokens", "the tokens are %s" % show(x, 5))
        return
    tid = ctx.adt("TokenSet")
    for i, (n, ft, _) in enumerate(ctx.fields(tid)):
        t = ctx.types[ft]["s"]
        y = deref_all(I, st, x.args[2 + i])
        if "SyntaxReference" in t:
            want = [simple(d)]
        elif "SyntaxSet" in t:
            want = [simple(s.get(I, st, "syntaxes"))]
        elif "String" in t or "str" in t:
            data = bfield(s, I, st, b, "data")
            want = [simple(T("textof", data))]
            if data.op == "rc":
                c = I.read(st, data.args[0], (("cell",),))
                want = [simple(c.args[0])] if c.op == "gb" else []
        else:
            continue
        y = simple(I.val(st, y))
        decide(obs, o, st, True if y in want else (None if taint(y) or not want else False), "tokens", "the %s of the tokens is %s, not the current buffer's" % (n, show(y, 6)))
