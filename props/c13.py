"""A dimension analysis over everything the other properties' analyses compute. Every number has a unit (bytes, user-
perceived characters, code points, lines) which its source determines: lengths of texts, offsets of characters, counts of
clusters, the fields of positions, distances and line ranges. Within one expression, comparison, index or field of a type
all units must agree; fields and loop variables get theirs by unification over all functions. Second, every place where a
text is cut or bytes are read as text is looked at: both ends must provably be places where a character begins. The
offsets types keep between calls are known to be such places on entry and must be again on exit."""
from .common import *
from .buf import Z0
from absint import models
from absint.models import rd, app
from . import gap as G_
from . import c18
import importlib

ASSUMPTIONS = ["undo and redo run on the text their operation was recorded on (C01-C03)", "syntect gives offsets at which characters begin"]
FROM = ["c01", "c02", "c03", "c04", "c05", "c08", "c09", "c10", "c11", "c12", "c14", "c15", "c16", "c17", "c18", "c21", "c23", "c24", "c26"]
BYTES, COLUMNS, CHARS, LINES = "bytes", "columns", "code points", "lines"
BINDERS = {"comp": (2, 3), "filt": (1, 2), "flat": (1, 2), "countif": (1, 2), "since": (2, 3)}
FIELDS = {"Position": (LINES, COLUMNS), "Distance": (LINES, COLUMNS), "LineRange": (LINES, LINES)}


class Units:
    def __init__(self):
        self.up = {}

    def find(self, k):
        while k in self.up:
            k = self.up[k]
        return k

    def unify(self, a, b):
        """False when two different units would become one"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        if isinstance(a, str):
            a, b = b, a
        self.up[a] = b
        return True

    def name(self, k):
        k = self.find(k)
        return k if isinstance(k, str) else None


class Run:
    """the units in one function's analysis"""

    def __init__(self, U, I, f, n):
        self.U, self.I, self.f, self.n = U, I, f, n
        self.bad = []
        self.count = 0
        self.memo = {}
        self.done = set()
        self.texts = set()
        self.env = ()

    def learn(self, t):
        """which terms stand for texts"""
        for x in subterms(t) if isinstance(t, Term) else ():
            if x.op in ("graphemes", "chars"):
                self.texts.add(x.args[0])
            elif x.op == "app" and len(x.args) > 2 and x.args[0] in ("ends_with", "starts_with", "contains", "find", "rfind"):
                self.texts.add(x.args[1])

    def measure(self, x):
        """the unit of lengths of and indices into a sequence"""
        op = x.op
        if x in self.texts:
            return BYTES
        if op == "graphemes":
            return COLUMNS if x.args[1] is TRUE else "legacy clusters"
        if op == "chars":
            return CHARS
        if op == "lines" or op == "split" and len(x.args) > 2 and x.args[2] is T("str", "\n"):
            return LINES
        if op in ("str", "bytes", "textof", "chstr", "lastseg"):
            return BYTES
        if op in ("sl", "rev"):
            return self.measure(x.args[0])
        if op == "cat":
            for p in x.args:
                m = self.measure(p)
                if m is not None:
                    return m
            return None
        if op == "at":
            return BYTES if x.args[0].op in ("graphemes", "lines", "split") else None
        if op == "app" and x.args[0] == "line_text":
            return BYTES
        if op == "deref":
            return self.measure(x.args[0]) or (BYTES if self.stringy(x.args[0]) else None)
        if op in ("sym", "vf", "fld"):
            return BYTES if self.stringy(x) else None
        return None

    def stringy(self, x):
        tid = self.I.term_ty.get(x)
        if tid is None and x.op == "sym" and len(x.args) > 1 and isinstance(x.args[1], int):
            tid = x.args[1]
        if tid is None:
            return False
        t = self.I.types[self.I.strip_refs(tid)]
        return t["k"] == "str" or t.get("path") == "std::string::String"

    def atom(self, a):
        op, n = a.op, len(a.args)
        if op == "len" and n == 1:
            return self.measure(a.args[0])
        if op in ("coff", "goff") and n == 2 or op == "len_utf8":
            return BYTES
        if op == "vf" and n == 3:
            v = a.args[0]
            if v.op == "coff" and len(v.args) == 3:
                return BYTES
            if v.op == "app" and v.args[0] in ("find", "rfind"):
                return BYTES
        if op == "occ" and a.args[1] is T("str", "\n"):
            return LINES
        if op == "app" and a.args[0] == "line_number":
            return LINES
        if op == "bv":
            return dict(self.env).get(a)
        if op == "since":
            return self.unit(a.args[3])
        if op == "sym" and len(a.args) > 1 and isinstance(a.args[1], int) and self.I.types[a.args[1]]["s"] == "usize" or op == "lv":
            return ("term", self.n, a)
        return None

    def unit(self, t):
        """the unit all parts of a number have; disagreements are noted"""
        m = (t, self.env) if has_op(t, "bv") else t
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = None
        u, first = None, None
        for a in parts(t)[1]:
            w = self.atom(a)
            if w is None:
                continue
            if u is None:
                u, first = w, a
            else:
                self.same(u, w, t)
        self.memo[m] = u
        return u

    def same(self, u, w, t):
        if u is None or w is None:
            return
        self.count += 1
        if not self.U.unify(u, w):
            self.bad.append((self.U.name(u), self.U.name(w), t))

    def have(self, t, u):
        self.same(self.unit(t), u, t)

    def bound(self, t):
        """is a count compared with the length of a whole text? No text has more characters, columns or lines
        than bytes, whatever it is: this bounds the count and converts nothing"""
        ps = list(parts(t)[1].items())
        if len(ps) != 2 or sorted(c for _, c in ps) != [-1, 1]:
            return False
        for (a, _), (b, _) in (ps, ps[::-1]):
            if a.op == "len" and len(a.args) == 1 and a.args[0].op in ("sym", "vf", "fld") and self.measure(a.args[0]) is BYTES and b.op in ("sym", "vf", "fld"):
                return True
        return False

    def scan(self, t):
        if isinstance(t, tuple):
            for x in t:
                self.scan(x)
            return
        if not isinstance(t, Term):
            return
        m = (t, self.env) if has_op(t, "bv") else t
        if m in self.done:
            return
        self.done.add(m)
        op, n = t.op, len(t.args)
        if op == "le0" and self.bound(t.args[0]):
            return
        if op in BINDERS and n >= BINDERS[op][1]:
            # the variable a comprehension binds runs over the range given
            bound = {x for x, _ in self.env}
            free = [x for x in subterms(t.args[0] if isinstance(t.args[0], Term) else T("conds", *t.args[0])) if x.op == "bv" and x not in bound]
            b = max(free, key=lambda x: x.args[0] if x.args else 0) if free else T("bv")
            key = ("term", self.n, t)
            for i in BINDERS[op]:
                if i < n and isinstance(t.args[i], Term):
                    self.have(t.args[i], key)
                    self.scan(t.args[i])
            env, self.env = self.env, tuple(x for x in self.env if x[0] is not b) + ((b, key),)
            self.scan(t.args[0])
            self.env = env
            return
        if op == "lin":
            self.unit(t)
        elif op == "sl":
            m = self.measure(t.args[0])
            self.have(t.args[1], m)
            self.have(t.args[2], m)
        elif op == "at":
            self.have(t.args[1], self.measure(t.args[0]))
        elif op == "goff" and n == 2:
            self.have(t.args[1], self.measure(t.args[0]))
        elif op == "coff" and n == 2:
            self.have(t.args[1], CHARS)
        elif op == "coff" and n == 3:
            self.have(t.args[1], LINES)
            self.have(t.args[2], COLUMNS)
        elif op == "adt":
            self.fields(t)
        for x in t.args:
            self.scan(x)

    def fields(self, t):
        name = t.args[0].split("::")[-1]
        if name in FIELDS and len(t.args) == 4:
            for x, u in zip(t.args[2:], FIELDS[name]):
                if isinstance(x, Term):
                    self.have(x, u)
            return
        ty = next((d for d in self.I.types if d and d["k"] == "adt" and d.get("path") == t.args[0]), None)
        if ty is None or not ty.get("local") or t.args[1] >= len(ty["variants"]):
            return
        for i, f in enumerate(ty["variants"][t.args[1]]["fields"]):
            if self.I.types[f[1]]["s"] == "usize" and 2 + i < len(t.args):
                self.have(t.args[2 + i], ("field", t.args[0], t.args[1], i))


class Watch(Obs):
    def __init__(self, ctx, obs, U):
        super().__init__(obs.prop)
        self.ctx, self.to, self.U = ctx, obs, U
        self.n = 0

    def note(self, I, outs=()):
        self.to.note(I, outs)

    def ran(self, f, I, st0, a, outs):
        self.n += 1
        r = Run(self.U, I, f, self.n)
        seen = set()
        for x in a:
            r.scan(models.deep(I, st0, rd(I, st0, x)) if isinstance(x, Term) else x)
        for o in outs:
            if o[0] != "ret":
                continue
            st = o[1]
            for c in st.pc:
                r.learn(c)
            r.texts |= {e.seq for e in st.events if e.kind == "strslice"}
            r.scan(st.pc)
            r.scan(I.val(st, o[2]))
            for root, v in st.store.items():
                if isinstance(v, Term):
                    r.scan(v)
            for e in st.events:
                if e.kind == "loop":
                    self.turns(r, e)
                for v in e.d.values():
                    r.scan(v)
                if e.kind == "strslice":
                    self.cuts(f, I, st, st0, a, e, ((e.seq, e.lo), (e.seq, e.hi)), seen)
                elif e.kind == "lossy":
                    self.cuts(f, I, st, st0, a, e, ends(I, e.seq), seen)
            self.kept(f, I, st, st0, a, o, seen)
        if r.bad:
            for u, w, t in r.bad:
                v = None if taint(t) == "unk" else False
                self.to.decide(v, "units", where(f), "%s and %s are mixed in %s" % (u, w, show(t, 6)), "", key="units@%s:%s/%s" % (f["item"], *sorted((str(u), str(w)))))
        else:
            self.to.ok("units", where(f), "%d uses of numbers agree" % r.count)

    def turns(self, r, e):
        for t in e.info["transitions"]:
            for lv, nx in t["next"].items():
                if isinstance(nx, Term) and nx.op in ("lin", "lv", "sym", "len", "vf", "coff", "goff"):
                    r.have(nx, ("term", r.n, lv))
                r.scan(nx)
            for c in t["pc"]:
                r.scan(c)
        for lv, (path, init) in e.info["lvs"].items():
            if init.op in ("lin", "sym", "len", "vf", "coff", "goff"):
                r.have(init, ("term", r.n, lv))

    def cuts(self, f, I, st, st0, a, e, ends_, seen):
        known = places(I, st, st0, a)
        for s, x in ends_:
            if (e.span, s, x) in seen:
                continue
            v = cut(I, st, s, x, known)
            if v is not True:
                v = None if st.unk or taint(x) or taint(s) else unsure(st, False, True)
            else:
                seen.add((e.span, s, x))
            self.to.decide(v, "text-slice" if e.kind == "strslice" else "character-boundary", "%s (%s)" % (canon(f["name"]), e.span or f.get("span", "?")), "%s is cut at %s, where a character need not begin" % (show(s, 5), show(x, 6)), path_of(st), key="cut@" + f["item"])

    def kept(self, f, I, st, st0, a, o, seen):
        """what types keep between calls as a place in a text is one afterwards"""
        known = places(I, st, st0, a)
        lay = getattr(I, "lay", None)
        if lay is not None and a and a[0].op == "ref":
            v = I.force(st, I.read(st, a[0].args[0], tuple(a[0].args[1:])))
            pt = G_.parts_of(I, st, lay, v)
            if pt is None:
                return
            try:
                parts_ = G_.splitting(st, lambda q: (G_.contents(I, q, *pt), I.seq_slice(q, pt[0], Z0, pt[1])))
            except Split:
                self.to.dunno("character-boundary", where(f), "the content afterwards is not understood")
                return
            for st2, (C, first) in parts_:
                for s, x in ends(I, C) + ends(I, first):
                    self.place(f, I, st2, s, x, known, "the text is put together from parts cut at %s, where a character need not begin")
            return
        for base, x in kept_places(I, st, a):
            self.place(f, I, st, base, x, known, "the iterator continues at %s, where a character need not begin")

    def place(self, f, I, st, s, x, known, msg):
        v = cut(I, st, s, x, known)
        if v is not True:
            v = None if taint(x) or taint(s) else unsure(st, False, True)
        self.to.decide(v, "place-kept", where(f), msg % show(x, 6), path_of(st), key="place@" + f["item"])


def ends(I, seq):
    """the ends of the parts a text is put together from"""
    out = []
    for p in I.seq_pieces(seq):
        if p.op == "sl" and p.args[0].op != "str":
            out += [(p.args[0], p.args[1]), (p.args[0], p.args[2])]
        elif p.op == "el":
            out.append((seq, T("unk", "single byte")))
    return out


def places(I, st, st0, a):
    """the places known to be ones where a character begins: (text, offset)"""
    out = []
    if getattr(I, "lay", None) is not None:
        for x in a[1:2]:
            pass
        C = T("sym", "content", I.ty_by_s.get("str"))
        out.append((C, T("sym", "gap_at", I.ty_by_s["usize"])))
        # what the callers of the store's own functions pass
        for x in a[1:]:
            if isinstance(x, Term) and x.op == "sym" and I.types[x.args[1]]["s"] == "usize":
                out.append((C, x))
        xs = [x for x in a[1:] if isinstance(x, Term) and x.op == "sym" and I.types[x.args[1]]["s"] == "usize"]
        if len(xs) == 2:
            out.append((C, add(xs[0], xs[1])))
        return out
    return out + kept_places(I, st0, a)


def kept_places(I, st, a):
    out = []
    if not a or a[0].op != "ref":
        return out
    v = I.force(st, I.val(st, I.read(st, a[0].args[0], tuple(a[0].args[1:]))))
    if v.op != "adt":
        return out
    ty = next((d for d in I.types if d and d["k"] == "adt" and d.get("path") == v.args[0]), None)
    if ty is None or ty["path"].split("::")[-1] not in ("LineIterator", "TokenIterator"):
        return out
    fs = ty["variants"][0]["fields"]
    texts = []
    for i, f in enumerate(fs):
        t = I.types[f[1]]
        if t["k"] == "ref" and I.types[t["ty"]]["k"] == "str":
            texts.append(rd(I, st, v.args[2 + i]))
        if t.get("path", "").endswith("Option") and t["args"] and I.types[t["args"][0]]["k"] == "ref" and I.types[I.types[t["args"][0]]["ty"]]["k"] == "str":
            w = I.force(st, I.val(st, v.args[2 + i]))
            if w.op == "adt" and w.args[1] == 1:
                texts.append(rd(I, st, w.args[2]))
            elif w.op != "adt":
                texts.append(T("deref", T("vf", w, 1, 0)))
            else:
                return out
    U = Watch.units
    for i, f in enumerate(fs):
        if I.types[f[1]]["s"] == "usize" and U.name(("field", ty["path"], 0, i)) == BYTES:
            for s in texts:
                out.append((s, I.val(st, v.args[2 + i])))
    return out


def found(st):
    """the places before and after single-byte characters"""
    out = []
    for t in st.facts.les:
        co, ps = parts(t)
        if len(ps) != 1:
            continue
        (x, q), = ps.items()
        if x.op != "at" or abs(q) != 1 or not 0 <= -co * q < 128 or not st.facts.entails_eq0(t):
            continue
        S, i = x.args[0], x.args[1]
        if S.op == "chars":
            at = T("coff", S, i) if i is not I_(0) else Z0
            out += [(S.args[0], at), (S.args[0], add(at, I_(1)))]
        elif S.op not in ("graphemes", "split", "lines", "matches", "comp", "rev", "derefs"):
            out += [(S, i), (S, add(i, I_(1)))]
    return out


def cut(I, st, s, x, known, depth=0):
    """does a character of the text begin (or the text end) at the offset?"""
    if depth > 4:
        return None
    d = st.facts
    if models.begins(I, st, s, x):
        return True
    if depth == 0:
        known = known + found(st)
    for b, y in known:
        if b is s and d.entails_eq0(sub(x, y)):
            return True
    for b, y in known:
        qs = I.seq_pieces(b)
        if b is not s and len(qs) == 1 and qs[0].op == "sl" and qs[0].args[0] is s and d.entails_eq0(sub(x, add(qs[0].args[1], y))):
            return True
    ps = I.seq_pieces(s)
    if len(ps) == 1 and ps[0].op == "sl" and ps[0].args[0] is not s:
        b, lo, hi = ps[0].args
        return cut(I, st, b, add(lo, x), known, depth + 1)
    if len(ps) > 1:
        at = Z0
        for p in ps:
            n = I.piece_len(p)
            if d.entails_eq0(sub(x, at)):
                return True
            if p.op == "sl" and d.decide(le(at, x)) is True and d.decide(le(x, add(at, n))) is True:
                return cut(I, st, p.args[0], add(p.args[1], sub(x, at)), known, depth + 1)
            at = add(at, n)
        return d.entails_eq0(sub(x, at))
    # the line feed or other single-byte character at the end
    for c in [c for c, v in d.bools.items() if v and c.op == "app" and c.args[0] == "ends_with" and c.args[2].op == "str"]:
        t = c.args[1]
        qs = I.seq_pieces(t)
        hi = None
        if t is s:
            hi = I.seq_len(s)
        elif len(qs) == 1 and qs[0].op == "sl" and qs[0].args[0] is s:
            hi = qs[0].args[2]
        if hi is not None and d.entails_eq0(sub(x, sub(hi, I_(len(c.args[2].args[0].encode()))))):
            return True
    # offsets found in a part of the text
    for a in parts(x)[1]:
        S = None
        if a.op in ("coff", "goff") and len(a.args) == 2:
            S = a.args[0].args[0]
        elif a.op == "vf" and a.args[0].op == "app" and a.args[0].args[0] in ("find", "rfind"):
            S = a.args[0].args[1]
        elif a.op == "vf" and a.args[0].op == "coff" and len(a.args[0].args) == 3 and a.args[0].args[0] is s:
            if d.entails_eq0(sub(x, a)):
                return True
        elif a.op == "fld" and a.args[0].op == "at" and isinstance(I, c18.World):
            E = a.args[0].args[0]
            E = E.args[0] if E.op == "rev" else E
            line = I.lines_of.get(E)
            if line is None and E.op == "vf" and E.args[0].op == "app" and E.args[0].args[0] == "parse_line":
                line = E.args[0].args[2]
            if line is s and d.entails_eq0(sub(x, a)):
                return True
        if S is not None:
            qs = I.seq_pieces(S)
            if len(qs) == 1 and qs[0].op == "sl" and qs[0].args[0] is s:
                inner = sub(x, qs[0].args[1])
                if models.begins(I, st, S, inner) and cut(I, st, s, qs[0].args[1], known, depth + 1) is True:
                    return True
    # equal to something that is one
    for v, i in d.variants.items():
        if i == 1 and v.op == "coff" and len(v.args) == 3 and v.args[0] is s and d.entails_eq0(sub(x, T("vf", v, 1, 0))):
            return True
    return None


I_ = I


def check(ctx, obs, tier):
    U = Units()
    Watch.units = U
    # twice: what is learnt about fields in one function counts in all
    for turn in (0, 1):
        quiet = Obs(obs.prop) if turn == 0 else obs
        w = Watch(ctx, quiet, U)
        for name in FROM:
            mod = importlib.import_module("props." + name)
            try:
                mod.check(ctx, w, tier)
            except Budget as e:
                obs.dunno("units", name.upper(), "analysis gave up: %s" % e)
            except Exception as e:
                obs.dunno("units", name.upper(), "analysis failed: %s" % e)
    obs.anchors += w.anchors
