"""data, read, line_count, file_name and file_extension are interpreted on an arbitrary buffer: the values
returned are compared with the text, the part of it between the offsets its ends resolve to, its number
of line breaks plus one, and the path's name and extension; the state afterwards with the state before."""
from .cur import *
from .c11 import range_ends, resolve

ASSUMPTIONS = ["which offset a position resolves to is C12", "std::path takes paths apart as documented"]


def bare(t):
    """without references and conversions that keep the content"""
    return rewrite(t, lambda x: x.args[0] if x.op in ("deref", "vref") else None)


def check(ctx, obs, tier):
    for name, spec in (("data", data), ("read", read), ("line_count", line_count), ("file_name", file_name), ("file_extension", extension)):
        f = ctx.method("Buffer", name)
        if not need(obs, f, "Buffer::" + name):
            continue
        I, st0, a, outs = run_buffer(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            v0, v1 = View(ctx, I, with_facts(st0, st), a[0]), View(ctx, I, st, a[0])
            if not v1.ok or v0.text is None or v1.text is None:
                obs.dunno("accessor", where(f), "buffer not understood")
                continue
            unchanged(obs, I, st, f, v0, v1)
            w = spec(ctx, I, st0, st, v0, a)
            if w is None:
                obs.dunno("accessor", where(f), "arguments not understood")
                continue
            for s2, want in w:
                if isinstance(want, tuple):
                    compare_opt(obs, I, s2, f, o[2], want[0])
                else:
                    got = I.val(s2, o[2])
                    r = equal_text(I, s2, got, want)
                    verdict(obs, s2, f, r, got, want)


def verdict(obs, st, f, r, got, want):
    if r is False and (st.unk or any(taint(c) for c in st.pc)):
        r = None
    obs.decide(r, "accessor", where(f), "%s returns %s, %s is required" % (f["item"], show(got) if got is not None else "nothing", show(want) if want is not None else "nothing"), path_of(st), key="accessor@" + f["item"])


def compare_opt(obs, I, st, f, v, want):
    for s2, p in opt(I, st, v):
        if (p is None) != (want is None):
            verdict(obs, s2, f, False, p, want)
        elif p is None:
            verdict(obs, s2, f, True, None, None)
        else:
            p = bare(I.val(s2, p))
            verdict(obs, s2, f, equal(I, s2, p, want), p, want)


def unchanged(obs, I, st, f, v0, v1):
    for n in ("text", "prev", "next", "mark", "group", "id", "path", "syntax", "callback"):
        obs.decide(equal(I, st, getattr(v1, n), getattr(v0, n)), "read-only", where(f), "%s changes the buffer's %s" % (f["item"], n), path_of(st), key="read-only@" + f["item"])


def data(ctx, I, st0, st, v0, a):
    return [(st, v0.text)]


def read(ctx, I, st0, st, v0, a):
    ps = range_ends(ctx, I, st, I.force(st, I.val(st0, a[1])))
    if ps is None:
        return None
    out = []
    for s1, p, q in ps:
        for s2, x in resolve(I, s1, v0.text, p):
            for s3, y in resolve(I, s2, v0.text, q):
                if x is None or y is None:
                    out.append((s3, (None,)))
                else:
                    s3.facts.assume(le(x, y))
                    out.append((s3, (I.seq_slice(s3, v0.text, x, y),)))
    return out


def line_count(ctx, I, st0, st, v0, a):
    return [(st, add(T("occ", v0.text, T("str", "\n")), I1))]


def part(I, st, v0, fn, then):
    out = []
    for s2, p in opt(I, st, v0.path):
        if p is None:
            out.append((s2, (None,)))
            continue
        for s3, x in opt_app(s2, T("app", fn, p)):
            out += [(s3, (None,))] if x is None else then(s3, x)
    return out


def opt_app(st, v):
    out = []
    for i in (1, 0):
        s2 = st.copy()
        if s2.assume(T("isvar", v, i)):
            out.append((s2, T("vf", v, 1, 0) if i else None))
    return out


def lookup(st, pred):
    """an opaque value the path has looked at"""
    for v in list(st.facts.variants) + list(st.facts.notvar) + list(st.facts.bools):
        if pred(v):
            return v
    return None


def file_name(ctx, I, st0, st, v0, a):
    def then(s, x):
        v = lookup(s, lambda v: v.op == "app" and v.args[0] == "os:to_str" and bare(v.args[1]) is bare(x)) or T("app", "os:to_str", T("deref", x))
        return [(s2, (None,) if y is None else (bare(y),)) for s2, y in opt_app(s, v)]
    return part(I, st, v0, "path:file_name", then)


def extension(ctx, I, st0, st, v0, a):
    def then(s, x):
        e = lookup(s, lambda v: v.op == "app" and v.args[0] == "os:is_empty" and bare(v.args[1]) is bare(x)) or T("app", "os:is_empty", T("deref", x))
        return [(s2, (None,) if b else (T("app", "os:to_string_lossy", bare(x)),)) for s2, b in truth(s, e)]
    return part(I, st, v0, "path:extension", then)
