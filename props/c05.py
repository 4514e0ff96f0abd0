"""save, from_file and reload are interpreted with the file system as an opaque environment: every
operation on it is recorded with its arguments and may fail. On each path the files written, the buffer's
state and the result are compared with what saving and loading require."""
from .buf import *
from .c04 import result, fuzzy

ASSUMPTIONS = ["std::fs functions do what they document; opening an empty path fails", "the process is not interrupted between truncating and writing the file"]
EMPTY = T("constv", "PathBuf", "")


def no_file(q):
    return q is EMPTY or q.op == "nil" or q.op == "str" and q.args[0] == ""


def check(ctx, obs, tier):
    f = ctx.method("Buffer", "save")
    if need(obs, f, "Buffer::save"):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                for s2, v in result(I, o[1], o[2]):
                    save(ctx, obs, I, st0, f, a[0], s2, v)
    f = ctx.method("Buffer", "reload")
    if need(obs, f, "Buffer::reload"):
        I, st0, a, outs = run_buffer(ctx, obs, f)
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                for s2, v in result(I, o[1], o[2]):
                    reload(ctx, obs, I, st0, f, a[0], s2, v, o[2])
    f = ctx.method("Buffer", "from_file")
    if need(obs, f, "Buffer::from_file"):
        I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
        no_panic(obs, f, outs)
        for o in outs:
            if o[0] == "ret":
                for s2, v in result(I, o[1], o[2]):
                    load(ctx, obs, I, f, a, s2, v)


def ok_known(st, e):
    return st.facts.decide(T("isvar", e.res, 0))


def file_of(v):
    """(the result of the operation that opened it, buffered?) of something written to"""
    b = False
    while True:
        if v.op in ("vf", "vref"):
            v = v.args[0]
        elif v.op == "app" and v.args[0] == "bufwriter":
            b, v = True, v.args[1]
        else:
            return v, b


def files(I, st):
    """what the file system operations of a path did: ({path: content}, problems)"""
    m, src, todo, why = {}, {}, [], []
    for e in st.events:
        if e.kind == "loop":
            todo.append("loop")
        if e.kind != "fs":
            continue
        ok = ok_known(st, e)
        args = [a for a in e.args]
        if e.op in ("read_to_string", "read", "metadata", "read_dir", "exists", "open", "sync_all", "sync_data"):
            continue
        if ok is False:
            why.append("%s failed" % e.op)
            if e.op in ("create", "write"):
                m.setdefault(args[0], None)
                if args[0] in m and e.op == "write":
                    m[args[0]] = None
            continue
        if ok is None:
            why.append("the result of %s is not looked at" % e.op)
        if e.op == "create":
            m[args[0]] = T("nil")
            src[e.res] = args[0]
        elif e.op == "open_options":
            o = [x for x in args[0].args] if args[0].op == "openopts" else None
            if o is None:
                todo.append("open options")
                continue
            if "truncate" in o or "create_new" in o:
                m[args[-1]] = T("nil")
            else:
                m[args[-1]] = T("old", args[-1]) if "append" in o else T("overlay", args[-1])
            src[e.res] = args[-1]
        elif e.op == "write":
            m[args[0]] = args[1] if ok is not None else None
        elif e.op in ("write_all", "write_some"):
            fl, buffered = file_of(args[0])
            p = src.get(fl)
            if p is None:
                todo.append("write to an unknown file")
                continue
            old = m[p]
            if e.op == "write_some" or ok is None or old is None:
                m[p] = None
            elif old.op == "nil":
                m[p] = T("buffered", args[1]) if buffered else args[1]
            elif old.op in ("old", "overlay"):
                m[p] = T(old.op, old.args[0], args[1])
            else:
                inner = old.args[0] if old.op == "buffered" else old
                c = I.seq_cat(st, inner, args[1])
                m[p] = T("buffered", c) if buffered else c
        elif e.op == "flush":
            fl, buffered = file_of(args[0])
            p = src.get(fl)
            if p is not None and m[p] is not None and m[p].op == "buffered" and ok is not None:
                m[p] = m[p].args[0]
        elif e.op in ("rename", "copy"):
            m[args[1]] = m.get(args[0], T("old", args[0])) if ok is not None else None
            if e.op == "rename":
                m.pop(args[0], None)
        elif e.op == "set_len":
            fl, _ = file_of(args[0])
            p = src.get(fl)
            if p is not None and m[p] is not None:
                m[p] = T("cut", m[p], args[1])
        else:
            todo.append(e.op)
    return m, why, todo


def save(ctx, obs, I, st0, f, ref, st, v):
    v0, v1 = View(ctx, I, with_facts(st0, st), ref), View(ctx, I, st, ref)
    soft = None if st.unk or fuzzy(st) else False

    def dec(r, key, msg):
        obs.decide(r, key, where(f), msg, path_of(st), key=key + "@save")
    dec(equal(I, st, v1.text, v0.text), "text-kept", "saving changes the text to %s" % show(v1.text))
    dec(equal(I, st, v1.path, v0.path), "path-kept", "saving changes the buffer's path")
    for n in ("id", "syntax", "callback"):
        dec(equal(I, st, getattr(v1, n), getattr(v0, n)), "frame", "saving changes the buffer's %s" % n)
    m, why, todo = files(I, st)
    if todo:
        soft = None
    for s2, p in opt(I, st, v0.path):
        mine = [p] if p is not None else []
        for q, c in m.items():
            if not any(q is x or equal(I, s2, q, x) is True for x in mine) and not no_file(q):
                dec(None if taint(q) else soft, "only-own-file", "a file other than the buffer's own is left written: %s" % show(q))
        if v is None:
            continue
        if p is None:
            # only reachable when creating a file at an empty path succeeds
            dec(True if any(e.kind == "fs" and e.args and no_file(e.args[0]) for e in st.events) else soft, "no-path", "saving a buffer without a path succeeds")
            continue
        c = next((c for q, c in m.items() if q is p or equal(I, s2, q, p) is True), None)
        if c is None or c.op in ("buffered", "old", "overlay", "cut"):
            dec(soft if not (c is not None and taint(c)) else None, "written", "save succeeds although the file is not known to hold exactly the text (%s)" % ("; ".join(why) or (show(c) if c is not None else "nothing is written to it")))
        else:
            r = equal(I, s2, c, v0.text)
            dec(r if r is not False or soft is False else None, "written", "the file is left with %s instead of the text" % show(c))
    if v is None:
        justified(obs, I, st, f)


def read_of(v):
    """the path whose content a value is"""
    if v.op == "vf" and v.args[0].op == "app" and v.args[0].args[0] == "fs:read_to_string":
        return v.args[0].args[1]
    return None


def other_read(v):
    return any(x.op == "app" and str(x.args[0]).startswith("fs:") and x.args[0] != "fs:read_to_string" for x in subterms(v))


def content_is(obs, I, st, f, text, path, key):
    if text is not None and text.op == "app" and text.args[0] == "lossy" and not st.unk:
        obs.decide(False, key, where(f), "what is not UTF-8 in the file is replaced by other characters", path_of(st), key=key + "@" + f["item"])
        return
    if text is None or taint(text) or other_read(text):
        obs.dunno(key, where(f), "text not understood: %s" % (show(text) if text is not None else "?"))
        return
    v = T("vf", T("app", "fs:read_to_string", path), 0, 0)
    r = equal(I, st, text, v)
    if r is not True:
        # by its canonical name it is the same file
        r = equal(I, st, text, T("vf", T("app", "fs:read_to_string", T("vf", T("app", "path:canonicalize", path), 0, 0)), 0, 0)) or r
    obs.decide(r, key, where(f), "the text is %s, not the content of the file" % show(text), path_of(st), key=key + "@" + f["item"])


def justified(obs, I, st, f):
    """an error is returned only when something failed"""
    bad = [u for u, i in st.facts.variants.items() if i == 1 and u.op == "app" and str(u.args[0]).split(":")[0] in ("fs", "path")]
    bad += [u for u, ns in st.facts.notvar.items() if 0 in ns and u.op == "app"]
    obs.decide(True if bad else (None if st.unk or fuzzy(st) else False), "errors", where(f), "%s fails although nothing went wrong" % f["item"], path_of(st), key="errors@" + f["item"])


def no_writes(obs, I, st, f):
    m, why, todo = files(I, st)
    obs.decide(True if not m and not todo else (None if todo else False), "no-writes", where(f), "%s writes to files: %s" % (f["item"], ", ".join(show(q) for q in m)), path_of(st), key="no-writes@" + f["item"])


def load(ctx, obs, I, f, a, st, v):
    no_writes(obs, I, st, f)
    given = deep_val(I, st, a[0])
    if v is None:
        justified(obs, I, st, f)
        return
    st = st.copy()
    root = ("T", "loaded")
    st.store[root] = v
    w = View(ctx, I, st, T("ref", root))
    if not w.ok or w.text is None:
        obs.dunno("loaded", where(f), "buffer not understood")
        return
    content_is(obs, I, st, f, w.text, given, "loaded")

    def dec(r, msg, key):
        obs.decide(r, key, where(f), msg, path_of(st), key=key + "@from_file")
    p = deep_val(I, st, w.path)
    dec(equal(I, st, p, T("adt", p.args[0] if p.op == "adt" else "?", 1, T("vf", T("app", "path:canonicalize", given), 0, 0))), "the buffer's path is %s, not the canonical path of the file" % show(p), "loaded-path")
    if w.cpos is None:
        dec(None, "cursor not understood", "loaded-cursor")
    else:
        dec(holds(I, st, conj(ieq(w.cpos[0], Z0), ieq(w.cpos[1], Z0))), "the cursor starts at %s" % show(w.cpos), "loaded-cursor")
    dec(True if w.cdata is w.data else (None if taint(w.cdata) else False), "the cursor does not refer to the buffer's text", "loaded-cursor")
    for n in ("prev", "next"):
        dec(equal(I, st, getattr(w, n), T("nil")), "a loaded buffer starts with recorded operations", "loaded-history")
    for n in ("group", "id", "syntax", "callback"):
        x = getattr(w, n)
        dec(True if x.op == "adt" and x.args[1] == 0 else (None if taint(x) else False), "a loaded buffer starts with a %s" % n, "loaded-fresh")


def reload(ctx, obs, I, st0, f, ref, st, v, ret):
    v0, v1 = View(ctx, I, with_facts(st0, st), ref), View(ctx, I, st, ref)
    no_writes(obs, I, st, f)

    def dec(r, msg, key):
        obs.decide(r, key, where(f), msg, path_of(st), key=key + "@reload")
    for n in ("id", "syntax", "callback", "path"):
        dec(equal(I, st, getattr(v1, n), getattr(v0, n)), "reload changes the buffer's " + n, "frame")
    if v is None:
        for n in ("text", "prev", "next", "mark", "group"):
            dec(equal(I, st, getattr(v1, n), getattr(v0, n)), "a failed reload changes the buffer's %s to %s" % (n, show(getattr(v1, n))), "failure-changes-nothing")
        if v0.cpos and v1.cpos:
            dec(holds(I, st, conj(ieq(v0.cpos[0], v1.cpos[0]), ieq(v0.cpos[1], v1.cpos[1]))), "a failed reload moves the cursor", "failure-changes-nothing")
    for s2, p in opt(I, st, v0.path):
        if p is None:
            dec(True if v is None else (None if st.unk else False), "reloading a buffer without a path succeeds", "missing-path")
            if v is None:
                missing_path(ctx, obs, I, s2, f, ret)
            continue
        if v is None:
            justified(obs, I, s2, f)
        else:
            content_is(obs, I, s2, f, v1.text, p, "reloaded")
            dec(True if v1.cdata is v1.data else (None if taint(v1.cdata) else False), "the cursor no longer refers to the buffer's text", "reloaded-cursor")


def missing_path(ctx, obs, I, st, f, ret):
    e = deep_val(I, st, ret)
    kinds = []
    for i, t in enumerate(ctx.types):
        if t and t["k"] == "adt" and t.get("path", "").endswith("ErrorKind") and t.get("local"):
            kinds.append(t)
    if e.op != "adt" or e.args[1] != 1 or len(kinds) != 1:
        obs.dunno("missing-path", where(f), "error value not understood: " + show(e))
        return
    want = [i for i, v in enumerate(kinds[0]["variants"]) if v["name"] == "MissingPath"]
    got = [x for x in subterms(e) if x.op == "adt" and x.args[0] == kinds[0]["path"]]
    if not want or len(got) != 1:
        obs.dunno("missing-path", where(f), "error kind not understood: " + show(e))
        return
    obs.decide(got[0].args[1] == want[0], "missing-path", where(f), "reloading without a path reports %s" % kinds[0]["variants"][got[0].args[1]]["name"], path_of(st), key="missing-path@reload")
