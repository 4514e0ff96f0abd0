"""Abstract interpretation of MIR.

The interpreter walks the control-flow graph of one function instance, calls included, over abstract
states (store of terms + relational facts + event trace + RefCell borrow typestate).  Branches whose
condition the facts do not decide are followed both ways; loops are run to a fixpoint: whatever the
body changes is replaced by a fresh loop variable, and linear relations between those are kept as
long as every iteration preserves them.  Nothing is executed and no input is ever chosen.
"""
import re
from .terms import *
from .facts import Facts
from . import facts as _facts


class Split(Exception):
    """Raised when an operation needs a case distinction; alternatives are conditions."""

    def __init__(self, *alts):
        self.alts = alts


def splits(facts, c):
    """a case distinction that brings a condition closer to being decided"""
    if c.op in ("and", "or", "not"):
        for x in c.args:
            if facts.decide(x) is None:
                return splits(facts, x)
    return c, neg(c)


class Budget(Exception):
    pass


class Event:
    __slots__ = ("kind", "d", "fn", "span")

    def __init__(self, kind, d, fn, span):
        self.kind, self.d, self.fn, self.span = kind, d, fn, span

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s(%s)@%s" % (self.kind, ", ".join("%s=%s" % (k, show(v) if isinstance(v, (Term, tuple)) else v) for k, v in self.d.items() if k != "info"), self.span)


class State:
    __slots__ = ("store", "facts", "events", "pc", "borrows", "unk", "where")

    def __init__(self):
        self.store, self.facts, self.events, self.pc = {}, Facts(), (), ()
        self.borrows, self.unk, self.where = {}, (), ("?", "?")

    def copy(self):
        s = State()
        s.store, s.facts = dict(self.store), self.facts.copy()
        s.events, s.pc, s.borrows, s.unk, s.where = self.events, self.pc, dict(self.borrows), self.unk, self.where
        return s

    def assume(self, cond):
        d = self.facts.decide(cond)
        if d is not None:
            return d
        self.pc += (cond,)
        return self.facts.assume(cond)

    def ev(self, kind, **d):
        self.events += (Event(kind, d, self.where[0], self.where[1]),)

    def imprecise(self, why):
        if why not in self.unk:
            self.unk += (why,)


def canon(name):
    """strip generic arguments and impl markers from a def path"""
    out, i, n = [], 0, len(name)
    while i < n:
        if name.startswith("::<", i):
            depth, i = 1, i + 3
            while depth:
                if name[i] == "<":
                    depth += 1
                elif name[i] == ">" and name[i - 1] != "-":
                    depth -= 1
                i += 1
            continue
        out.append(name[i])
        i += 1
    s = "".join(out)
    s = re.sub(r"\b(core|alloc)::", "std::", s)
    return s


class Frame:
    __slots__ = ("f", "fid", "loops", "bb")

    def __init__(self, f, fid, loops):
        self.f, self.fid, self.loops = f, fid, loops
        self.bb = None


STRUCT = {"adt", "tuple", "closure", "vref", "box", "refcell", "it", "with"}


class Interp:
    def __init__(self, dump, prims=None, models=None, max_steps=400000):
        self.types = dump["types"]
        self.fns = {f["key"]: f for f in dump["fns"]}
        self.impls = {(t, canon(m)): k for t, m, k in dump["impls"]}
        self.prims = prims or {}
        self.models = models
        self.uidc = 0
        self.enum_ty = {}
        self.ends = {}
        self.term_ty = {}
        self.loopcache = {}
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.active = {}
        self.stats = {"fns": set(), "calls": 0, "blocks": 0, "loops": 0, "paths": 0}
        self.ty_by_s = {}
        for i, t in enumerate(self.types):
            if t:
                self.ty_by_s.setdefault(t["s"], i)
        self.assumed = set()
        self.unmodelled = set()
        _facts.LEN[0] = self.seq_len

    def uid(self):
        self.uidc += 1
        return self.uidc

    # ------------------------------------------------------------ types

    def ty(self, i):
        return self.types[i]

    def strip_refs(self, tid):
        t = self.types[tid]
        while t["k"] in ("ref", "ptr"):
            tid = t["ty"]
            t = self.types[tid]
        return tid

    # ------------------------------------------------------------ symbolic inputs

    def sym(self, st, tid, name, over=None, depth=6):
        """an arbitrary value of a type"""
        over = over or {}
        if name in over:
            return over[name]
        t = self.types[tid]
        k = t["k"]
        if k == "adt" and depth > 0:
            p = t["path"]
            if p == "std::rc::Rc":
                root = ("R", name)
                if root not in st.store:
                    st.store[root] = self.sym(st, t["args"][0], name + ".*", over, depth)
                return T("rc", root)
            if p == "std::cell::RefCell":
                return T("refcell", self.sym(st, t["args"][0], name + ".c", over, depth))
            if p == "std::boxed::Box":
                return T("box", self.sym(st, t["args"][0], name + ".b", over, depth))
            h = self.sym_struct(st, tid, name, over, depth)
            if h is not None:
                return h
            if t["local"] and t["kind"] == "struct":
                fs = []
                for i, (fn, ft, _) in enumerate(t["variants"][0]["fields"]):
                    fs.append(self.sym(st, ft, name + "." + fn, over, depth - 1))
                return T("adt", p, 0, *fs)
        if k in ("ref", "ptr"):
            root = ("O", name)
            if root not in st.store:
                st.store[root] = self.sym(st, t["ty"], name + ".r" if False else name, over, depth)
            return T("ref", root)
        if k == "tuple":
            return T("tuple", *[self.sym(st, a, "%s.%d" % (name, i), over, depth) for i, a in enumerate(t["args"])])
        s = T("sym", name, tid)
        if k == "adt" and t["kind"] == "enum":
            self.enum_ty[s] = tid
        if k == "adt":
            self.note_type(s, tid)
        if k == "int" and t.get("signed"):
            from . import facts
            facts.SIGNED.add(s)
        return s

    def sym_struct(self, st, tid, name, over, depth):
        return None

    # ------------------------------------------------------------ sequences

    def seq_pieces(self, s):
        if s.op == "cat":
            return list(s.args)
        if s.op == "nil":
            return []
        if s.op in ("sl", "el"):
            return [s]
        return [T("sl", s, I(0), self.base_len(s))]

    def base_len(self, s):
        if s.op == "str":
            return I(len(s.args[0].encode()))
        if s.op == "bytes":
            return I(len(s.args[0]))
        if s.op == "rep":
            return s.args[1]
        if s.op == "rev":
            return self.seq_len(s.args[0])
        if s.op == "comp":
            return sub(s.args[3], s.args[2])
        if s.op == "split" and s.args[0] == "split" and s.args[2].op == "str":
            return add(T("occ", s.args[1], s.args[2]), I(1))
        if s.op == "matches" and s.args[1].op == "str":
            return T("occ", s.args[0], s.args[1])
        if s.op == "derefs":
            return self.seq_len(s.args[0])
        return T("len", s)

    def piece_len(self, p):
        if p.op == "el":
            return I(1)
        return sub(p.args[2], p.args[1])

    def seq_len(self, s):
        n = I(0)
        for p in self.seq_pieces(s):
            n = add(n, self.piece_len(p))
        return n

    def mkcat(self, st, pieces):
        out = []
        for p in pieces:
            if p.op == "cat":
                out.extend(p.args)
            elif p.op == "nil":
                pass
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op not in ("sl", "el"):
                p = T("sl", p, I(0), self.base_len(p))
            if p.op == "sl":
                a, b = p.args[1], p.args[2]
                if a is b or (st is not None and st.facts.entails_eq0(sub(a, b))):
                    continue
                if p.args[0].op == "str" and a.op == "int" and b.op == "int" and (a.args[0], b.args[0]) != (0, len(p.args[0].args[0].encode())):
                    p2 = T("str", p.args[0].args[0].encode()[a.args[0]:b.args[0]].decode("utf8", "replace"))
                    p = T("sl", p2, I(0), self.base_len(p2))
            if res and p.op == "sl" and res[-1].op == "sl" and res[-1].args[0] is p.args[0]:
                e, s2 = res[-1].args[2], p.args[1]
                if e is s2 or (st is not None and st.facts.entails_eq0(sub(e, s2))):
                    res[-1] = T("sl", p.args[0], res[-1].args[1], p.args[2])
                    continue
            if p.op == "el" and p.args[0].op == "at" and False:
                pass
            # an element that is base[k] glues with neighbouring slices of the same base
            if p.op == "el" and p.args[0].op == "at":
                base, k = p.args[0].args
                q = T("sl", base, k, add(k, I(1)))
                if res and res[-1].op == "sl" and res[-1].args[0] is base and self._eq(st, res[-1].args[2], k):
                    res[-1] = T("sl", base, res[-1].args[1], add(k, I(1)))
                    continue
                p = q
            res.append(p)
        if not res:
            return T("nil")
        if len(res) == 1 and res[0].op == "sl":
            p = res[0]
            if p.args[1] is I(0):
                L = self.base_len(p.args[0])
                if L is p.args[2] or self._eq(st, L, p.args[2]):
                    return p.args[0]
            return p
        return T("cat", *res) if len(res) > 1 else res[0]

    def _eq(self, st, a, b):
        return a is b or (st is not None and st.facts.entails_eq0(sub(a, b)))

    def _cmp3(self, st, a, b):
        c = st.facts.cmp(a, b)
        if c is None:
            raise Split(lt(a, b), ieq(a, b), lt(b, a))
        return c

    def _le(self, st, a, b):
        """a<=b? splits when unknown"""
        d = st.facts.decide(le(a, b))
        if d is None:
            raise Split(le(a, b), lt(b, a))
        return d

    def seq_slice(self, st, s, a, b):
        ps = self.seq_pieces(s)
        if len(ps) == 1 and ps[0].op == "sl":
            p = ps[0]
            return self.mkcat(st, [T("sl", p.args[0], add(p.args[1], a), add(p.args[1], b))])
        out, off = [], I(0)
        for p in ps:
            L = self.piece_len(p)
            end = add(off, L)
            # overlap of [a,b) with [off,end)
            if st.facts.decide(le(end, a)) is True and not (a is off):
                off = end
                continue
            if st.facts.decide(le(b, off)) is True:
                break
            within = p.op != "el" and a is not off
            if within and st.facts.decide(le(off, a)) is True and st.facts.decide(le(a, end)) is True:
                lo = sub(a, off)
            elif a is not off and not self._le(st, a, off):
                if self._le(st, end, a):
                    off = end
                    continue
                lo = sub(a, off)
            else:
                lo = I(0)
            if p.op != "el" and st.facts.decide(le(b, end)) is True and st.facts.decide(le(add(off, lo), b)) is True:
                hi = sub(b, off)
            elif self._le(st, end, b):
                hi = L
            else:
                if self._le(st, b, off):
                    break
                hi = sub(b, off)
            if p.op == "el":
                out.append(p)
            else:
                out.append(T("sl", p.args[0], add(p.args[1], lo), add(p.args[1], hi)))
            off = end
        return self.mkcat(st, out)

    def seq_at(self, st, s, i):
        off = I(0)
        ps = self.seq_pieces(s)
        for n, p in enumerate(ps):
            L = self.piece_len(p)
            end = add(off, L)
            if n == len(ps) - 1 or not self._le(st, end, i):
                if p.op == "el":
                    return p.args[0]
                return self.base_at(st, p.args[0], add(p.args[1], sub(i, off)))
            off = end
        return T("bad")

    def base_at(self, st, base, k):
        if base.op == "rep":
            return base.args[0]
        if base.op == "rev":
            return self.seq_at(st, base.args[0], sub(sub(self.seq_len(base.args[0]), I(1)), k))
        if base.op == "derefs":
            return T("at", base, k)
        if base.op == "split" and base.args[0] == "split":
            if self._eq(st, k, sub(self.base_len(base), I(1))) and k is not I(0):
                return T("lastseg", base.args[1], base.args[2])
        if base.op == "bytes" and k.op == "int":
            return I(base.args[0][k.args[0]])
        if base.op == "comp":
            x = subst(base.args[0], {binder(base): add(base.args[2], k)})
            if x.op != "cases":
                return x
            cs = [(x.args[i], x.args[i + 1]) for i in range(0, len(x.args), 2)]
            if st is not None:
                for c, v in cs:
                    if st.facts.decide(c) is True:
                        return v
                live = [(c, v) for c, v in cs if st.facts.decide(c) is not False and st.copy().assume(c)]
                if len(live) == 1:
                    return live[0][1]
                if live:
                    raise Split(*[c for c, _ in live])
            return T("at", base, k)
        x = T("at", base, k)
        if st is not None:
            self.on_elem(st, base, k)
        tid = self.term_ty.get(base)
        if tid is not None and self.types[tid]["path"] == "std::vec::Vec":
            et = self.types[tid]["args"][0]
            if et is not None and self.types[et]["k"] == "adt" and self.types[et]["local"]:
                self.note_type(x, et)
        return x

    def seq_upd(self, st, s, i, v):
        n = self.seq_len(s)
        return self.mkcat(st, [self.seq_slice(st, s, I(0), i), T("el", v), self.seq_slice(st, s, add(i, I(1)), n)])

    def seq_cat(self, st, *ss):
        ps = []
        for s in ss:
            ps.extend(self.seq_pieces(s))
        return self.mkcat(st, ps)

    def norm_seq(self, st, s):
        return self.mkcat(st, [p if p.op != "el" else T("el", self.norm(st, p.args[0])) for p in self.seq_pieces(s)])

    # ------------------------------------------------------------ places

    def force(self, st, v):
        """expand a value whose enum variant is known"""
        if v.op in ("adt",):
            return v
        vi = st.facts.variants.get(v)
        if vi is not None and v in self.enum_ty:
            t = self.types[self.enum_ty[v]]
            fs = t["variants"][vi]["fields"]
            out = []
            for j, (fname, ft, _) in enumerate(fs):
                x = T("vf", v, vi, j)
                if ft is not None:
                    self.note_type(x, ft)
                    x = self.wrap(st, x, ft)
                out.append(x)
            return T("adt", t["path"], vi, *out)
        return v

    def note_type(self, v, tid):
        t = self.types[tid]
        if t["k"] == "adt" and t["kind"] == "enum" and v.op not in ("adt",):
            self.enum_ty.setdefault(v, tid)
        if t["k"] == "adt" and v.op in ("vf", "fld", "sym", "at", "unbox", "deref", "app"):
            if (t["local"] and t["kind"] == "struct") or t["path"] == "std::vec::Vec":
                self.term_ty.setdefault(v, tid)

    def wrap(self, st, v, tid):
        """give an opaque value of pointer-like type its pointer structure"""
        if v.op in ("ref", "vref", "rc", "box", "adt", "guard", "closure", "fndef", "refcell"):
            return v
        t = self.types[tid]
        if t["k"] == "ref":
            return T("vref", self.wrap(st, T("deref", v), t["ty"])) if not t["mut"] else v
        if t["k"] == "adt" and t["path"] == "std::rc::Rc":
            root = ("R", v)
            return T("rc", root)
        if t["k"] == "adt" and t["path"] == "std::boxed::Box":
            return T("box", T("unbox", v))
        return v

    def get_root(self, st, root):
        if root in st.store:
            return st.store[root]
        if root[0] == "V":
            return root[1]
        if root[0] == "D":
            return T("deref", root[1])
        if root[0] == "R":
            v = T("rcval", root[1]) if isinstance(root[1], Term) else T("undef")
            return v
        return T("undef")

    def project(self, st, v, p):
        k = p[0]
        if k == "f":
            i = p[1]
            if v.op == "adt":
                return v.args[2 + i] if 2 + i < len(v.args) else T("bad")
            if v.op == "tuple":
                return v.args[i] if i < len(v.args) else T("bad")
            if v.op == "closure":
                return v.args[1 + i]
            if v.op == "dc":
                return T("vf", v.args[0], v.args[1], i)
            if v.op == "with":
                for j, x in v.args[1]:
                    if j == i:
                        return x
                return self.project(st, v.args[0], p)
            fv = self.force(st, v)
            if fv is not v:
                return self.project(st, fv, p)
            x = T("fld", v, i)
            tid = self.term_ty.get(v)
            if tid is not None and self.types[tid]["path"] != "std::vec::Vec":
                ft = self.types[tid]["variants"][0]["fields"][i][1]
                if ft is not None:
                    self.note_type(x, ft)
                    x = self.wrap(st, x, ft)
            return x
        if k == "v":
            v = self.force(st, v)
            if v.op == "adt":
                return v
            return T("dc", v, p[1])
        if k == "idx":
            return self.seq_at(st, v, p[1])
        if k == "box":
            return v.args[0] if v.op == "box" else T("unbox", v)
        if k == "cell":
            return v.args[0] if v.op == "refcell" else T("cellv", v)
        if k == "range":
            return self.seq_slice(st, v, p[1], p[2])
        raise Budget("projection %r" % (p,))

    def read(self, st, root, proj):
        v = self.get_root(st, root)
        for p in proj:
            v = self.project(st, v, p)
        return v

    def update(self, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = p[0]
        if k == "f":
            i = p[1]
            if v.op == "dc":
                v = self.force(st, v.args[0])
            v = self.force(st, v)
            new = self.update(st, self.project(st, v, p), proj[1:], val)
            if v.op == "adt":
                a = list(v.args)
                a[2 + i] = new
                return T("adt", *a)
            if v.op == "tuple":
                a = list(v.args)
                a[i] = new
                return T("tuple", *a)
            if v.op == "closure":
                a = list(v.args)
                a[1 + i] = new
                return T("closure", *a)
            if v.op == "with":
                d = dict(v.args[1])
                d[i] = new
                return T("with", v.args[0], tuple(sorted(d.items())))
            return T("with", v, ((i, new),))
        if k == "v":
            return self.update(st, self.force(st, v), proj[1:], val)
        if k == "idx":
            new = self.update(st, self.project(st, v, p), proj[1:], val) if len(proj) > 1 else val
            return self.seq_upd(st, v, p[1], new)
        if k == "box":
            return T("box", self.update(st, self.project(st, v, p), proj[1:], val))
        if k == "cell":
            return T("refcell", self.update(st, self.project(st, v, p), proj[1:], val))
        if k == "range":
            n = self.seq_len(v)
            new = self.update(st, self.project(st, v, p), proj[1:], val) if len(proj) > 1 else val
            return self.seq_cat(st, self.seq_slice(st, v, I(0), p[1]), new, self.seq_slice(st, v, p[2], n))
        raise Budget("update %r" % (p,))

    def write(self, st, root, proj, val):
        if root[0] == "V":
            if not proj and False:
                return
            st.imprecise("write through a snapshot")
            return
        old = self.get_root(st, root) if proj else None
        new = self.update(st, old, proj, val) if proj else val
        st.store[root] = new

    def deref_target(self, st, v):
        """place a pointer value points to"""
        if v.op == "ref":
            return v.args[0], tuple(v.args[1:])
        if v.op == "vref":
            return ("V", v.args[0]), ()
        if v.op == "box":
            return ("V", v.args[0]), ()
        return ("D", v), ()

    def mkref(self, root, proj, st=None):
        if root[0] == "V":
            v = self.read(st, root, proj)
            return T("vref", v)
        if root[0] == "D" and not proj:
            return root[1]
        return T("ref", root, *proj)

    def place(self, st, fr, pl):
        root, proj = ("L", fr.fid, pl[0]), ()
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, root, proj)
                if v.op == "box":
                    proj = proj + (("box",),)
                    continue
                root, proj = self.deref_target(st, v)
            elif e[0] == "f":
                proj += (("f", e[1]),)
            elif e[0] == "v":
                proj += (("v", e[1]),)
            elif e[0] == "i":
                proj += (("idx", self.read(st, ("L", fr.fid, e[1]), ())),)
            elif e[0] == "c":
                v = self.read(st, root, proj)
                k = I(e[1]) if not e[3] else sub(self.seq_len(v), I(e[1]))
                proj += (("idx", k),)
            elif e[0] == "s":
                v = self.read(st, root, proj)
                n = self.seq_len(v)
                proj += (("range", I(e[1]), sub(n, I(e[2])) if e[3] else I(e[2])),)
            else:
                raise Budget("place element")
        return root, proj

    def place_ty(self, fr, pl):
        tid = fr.f["locals"][pl[0]][0]
        for e in pl[1:]:
            t = self.types[tid]
            if e == "*":
                tid = t["ty"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t["k"] == "adt" and t.get("args") else tid)
            elif e[0] == "f":
                tid = e[2]
            elif e[0] in ("i", "c"):
                tid = t.get("ty", tid)
        return tid

    # ------------------------------------------------------------ operands and rvalues

    def const(self, st, fr, o):
        t = self.types[o["t"]]
        c = o["c"]
        if c == "int":
            v = int(o["v"])
            if t["k"] == "bool":
                return B(v != 0)
            if t["k"] == "adt":
                for i, vr in enumerate(t["variants"]):
                    if int(vr["discr"]) == v and not vr["fields"]:
                        return T("adt", t["path"], i)
                if t["kind"] == "struct" and len(t["variants"][0]["fields"]) == 1:
                    return T("adt", t["path"], 0, I(v))
                return T("unk", "const:" + t["s"], v)
            return I(v)
        if c == "str":
            return T("vref", T("str", o["v"]))
        if c == "bytes":
            b = T("bytes", tuple(o["v"]))
            return T("vref", b)
        if c == "zst":
            return self.zst(o["t"])
        if c == "promoted":
            f = self.fns.get(o["inst"])
            if f is None or o["p"] >= len(f["promoted"]):
                return T("unk", "promoted")
            g = f["promoted"][o["p"]]
            outs = self.run_body(st, g, [], keep=True)
            if len(outs) == 1 and outs[0][0] == "ret":
                return self.freeze(outs[0][1], outs[0][2])
            return T("unk", "promoted")
        if c == "agg":
            if t["k"] == "adt" and "fields" in o:
                return T("adt", t["path"], o.get("variant", 0), *[self.const(st, fr, x) for x in o["fields"]])
            if t["k"] == "tuple" and "fields" in o:
                return T("tuple", *[self.const(st, fr, x) for x in o["fields"]])
            if t["k"] == "adt" and t["path"] == "std::vec::Vec" or t["s"] == "std::string::String":
                return T("nil")
            return T("constv", t["s"], str(o.get("s")))
        return T("constv", t["s"], str(o.get("s")))

    def freeze(self, st, v):
        """turn references to locals into snapshots"""
        if v.op == "ref":
            return T("vref", self.freeze(st, self.read(st, v.args[0], tuple(v.args[1:]))))
        if v.op in STRUCT or v.op in ("el", "cat"):
            return T(v.op, *[self.freeze(st, a) if isinstance(a, Term) else a for a in v.args])
        return v

    def zst(self, tid):
        t = self.types[tid]
        if t["k"] == "fndef":
            return T("fndef", tid)
        if t["k"] == "closure":
            return T("closure", tid)
        if t["k"] == "tuple":
            return UNIT
        if t["k"] == "adt" and t["kind"] == "struct":
            return T("adt", t["path"], 0)
        return T("zst", t["s"])

    def operand(self, st, fr, o):
        if o["o"] == "k":
            return self.const(st, fr, o)
        root, proj = self.place(st, fr, o["p"])
        v = self.read(st, root, proj)
        return v

    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["a"])
        if k in ("ref", "addr", "reborrow"):
            root, proj = self.place(st, fr, r["p"])
            if root[0] == "D" and not proj:
                return root[1]
            return self.mkref(root, proj, st)
        if k == "cast":
            if r["k"] == "BoxDerefTransmute":
                p = r["a"]["p"]
                root, proj = self.place(st, fr, p)
                while proj and proj[-1] == ("f", 0):
                    proj = proj[:-1]
                v = self.read(st, root, proj)
                return self.mkref(root, proj + (("box",),), st)
            v = self.operand(st, fr, r["a"])
            ks = r["k"]
            if ks == "IntToInt":
                a, b = self.types[r["from"]], self.types[r["t"]]
                if v.op == "bool":
                    return I(1 if v.args[0] else 0)
                if a["k"] == "bool":
                    d = st.facts.decide(v)
                    if d is None:
                        raise Split(*splits(st.facts, v))
                    return I(1 if d else 0)
                if b.get("bits", 32) < a.get("bits", 32) and v.op != "int":
                    return T("trunc", v, b.get("bits"))
                return v
            return v
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b, r["t"])
        if k == "un":
            a = self.operand(st, fr, r["a"])
            if r["op"] == "Not":
                if a.op in ("int", "lin"):
                    return T("bitnot", a)
                return neg(a)
            if r["op"] == "PtrMetadata":
                root, proj = self.deref_target(st, a)
                return self.seq_len(self.read(st, root, proj))
            return T("un", r["op"], a)
        if k == "discr":
            root, proj = self.place(st, fr, r["p"])
            v = self.force(st, self.read(st, root, proj))
            tid = self.place_ty(fr, r["p"])
            t = self.types[tid]
            if v.op == "adt":
                if t["k"] == "adt" and v.args[1] < len(t["variants"]):
                    return I(int(t["variants"][v.args[1]]["discr"]))
                return I(v.args[1])
            self.note_type(v, tid)
            return T("discr", v, tid)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            if r["k"] == "adt":
                t = self.types[r["t"]]
                return T("adt", t["path"], r["v"], *ops)
            if r["k"] == "tuple":
                return T("tuple", *ops)
            if r["k"] == "closure":
                return T("closure", r["t"], *ops)
            if r["k"] == "array":
                return self.mkcat(st, [T("el", o) for o in ops])
            if r["k"] == "rawptr":
                return ops[0]
            return T("unk", "aggregate")
        if k == "repeat":
            return T("rep", self.operand(st, fr, r["a"]), I(r["n"]) if r["n"] is not None else T("unk", "n"))
        return T("unk", "rvalue")

    def signed(self, v, t):
        if v.op == "int" and t["k"] == "int" and t.get("signed") and v.args[0] >= 1 << (t["bits"] - 1):
            return I(v.args[0] - (1 << t["bits"]))
        return v

    def known_discr(self, st, v):
        if v.op == "discr":
            i = st.facts.variants.get(v.args[0])
            if i is None:
                x = self.force(st, v.args[0])
                i = x.args[1] if x.op == "adt" else None
            if i is not None:
                return I(int(self.types[v.args[1]]["variants"][i]["discr"]))
        return v

    def binop(self, st, op, a, b, tid):
        t = self.types[tid]
        a, b = self.known_discr(st, a), self.known_discr(st, b)
        for x in (a, b):
            if x.op == "discr":
                if a.op == b.op == "discr" and op in ("Eq", "Ne") and a.args[0] is b.args[0]:
                    return B(op == "Eq")
                raise Split(*[T("isvar", x.args[0], i) for i in range(len(self.types[x.args[1]]["variants"]))])
        a, b = self.signed(a, t), self.signed(b, t)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if t["k"] in ("int", "char"):
                return {
                    "Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a),
                    "Eq": lambda: ieq(a, b), "Ne": lambda: neg(ieq(a, b)),
                }[op]()
            if t["k"] == "bool":
                if op in ("Eq", "Ne"):
                    da, db = st.facts.decide(a), st.facts.decide(b)
                    if da is None:
                        raise Split(a, neg(a))
                    if db is None:
                        r = b if da else neg(b)
                    else:
                        r = B(da == db)
                    return r if op == "Eq" else neg(r)
            e = self.eqv(st, a, b)
            if op == "Eq":
                return e
            if op == "Ne":
                return neg(e)
            return T("unk", "cmp", a, b)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return self.mul(a, b)
        if op == "AddWithOverflow":
            return T("tuple", add(a, b), T("ovf", "add"))
        if op == "SubWithOverflow":
            return T("tuple", sub(a, b), FALSE if t.get("signed") else lt(a, b))
        if op == "MulWithOverflow":
            return T("tuple", self.mul(a, b), T("ovf", "mul"))
        if op == "BitAnd" and t["k"] == "bool":
            return conj(a, b)
        if op == "BitOr" and t["k"] == "bool":
            return disj(a, b)
        if op == "BitXor" and t["k"] == "bool":
            d = st.facts.decide(a)
            if d is None:
                raise Split(a, neg(a))
            return neg(b) if d else b
        if op == "Rem":
            if st.facts.decide(lt(a, b)) is True:
                return a
            d = sub(a, b)
            if st.facts.decide(le(b, a)) and st.facts.decide(lt(d, b)):
                return d
            if st.facts.decide(lt(a, b)) is None and st.facts.decide(lt(d, b)):
                raise Split(lt(a, b), le(b, a))
            return T("rem", a, b)
        if op == "Div":
            return T("div", a, b)
        if op == "Cmp":
            c = self._cmp3(st, a, b)
            return T("adt", "std::cmp::Ordering", {"<": 0, "=": 1, ">": 2}[c])
        return T("bin", op, a, b)

    def mul(self, a, b):
        if a.op == "int":
            return scale(b, a.args[0])
        if b.op == "int":
            return scale(a, b.args[0])
        return T("mul", *sorted((a, b)))

    def is_number(self, t):
        if t.op in ("int", "lin", "len", "occ", "bv"):
            return True
        return t.op == "sym" and len(t.args) > 1 and isinstance(t.args[1], int) and self.types[t.args[1]]["s"] in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "char")

    def eqv(self, st, a, b):
        """equality of two values, as a condition"""
        a, b = self.val(st, a), self.val(st, b)
        a, b = self.norm(st, a), self.norm(st, b)
        if a is b:
            return TRUE
        if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2:], b.args[2:]):
                r = conj(r, self.eqv(st, x, y))
            return r
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = conj(r, self.eqv(st, x, y))
            return r
        if self.is_number(a) or self.is_number(b):
            return ieq(a, b)
        if a.op == "str" and b.op == "str":
            return B(a.args[0] == b.args[0])
        if a.op == "bool" or b.op == "bool":
            if a.op == "bool":
                return b if a.args[0] else neg(b)
            return a if b.args[0] else neg(a)
        seq = ("cat", "sl", "nil", "str", "rep", "el")
        if a.op in seq or b.op in seq:
            if a.op == "nil":
                return ieq(self.seq_len(b), I(0))
            if b.op == "nil":
                return ieq(self.seq_len(a), I(0))
        x, y = sorted((a, b))
        return T("eq", x, y)

    def val(self, st, v):
        """strip references: the value a (chain of) reference denotes"""
        n = 0
        while n < 20:
            n += 1
            if v.op == "ref":
                v = self.read(st, v.args[0], tuple(v.args[1:]))
            elif v.op == "vref":
                v = v.args[0]
            elif v.op == "guard":
                v = self.val(st, v.args[1])
            elif v.op == "box":
                v = v.args[0]
            else:
                break
        return v

    def norm(self, st, v):
        v = self.force(st, v)
        if v.op in ("cat", "sl", "nil"):
            return self.norm_seq(st, v)
        if v.op in ("adt", "tuple", "box"):
            return T(v.op, *[self.norm(st, a) if isinstance(a, Term) else a for a in v.args])
        return v

    # ------------------------------------------------------------ bodies

    def loops_of(self, f):
        k = id(f)
        r = self.loopcache.get(k)
        if r is not None:
            return r
        n = len(f["blocks"])
        succ = []
        for b in f["blocks"]:
            t = b["term"]
            s = []
            if t["t"] == "goto":
                s = [t["to"]]
            elif t["t"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["else"]]
            elif t["t"] in ("drop", "assert"):
                s = [t["to"]]
            elif t["t"] == "call" and t["to"] is not None:
                s = [t["to"]]
            succ.append(s)
        # dominators over reachable blocks
        order, seen = [], set()

        def dfs(s):
            st = [(s, iter(succ[s]))]
            seen.add(s)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(succ[x])))
                        break
                else:
                    order.append(b)
                    st.pop()

        dfs(0)
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    wk = [b]
                    while wk:
                        x = wk.pop()
                        if x not in body:
                            body.add(x)
                            wk.extend(preds[x])
        r = (loops, succ)
        self.loopcache[k] = r
        return r

    def call_key(self, st, key, args):
        f = self.fns[key]
        return self.run_body(st, f, args)

    def run_body(self, st, f, args, keep=False):
        n = self.active.get(f.get("name"), 0)
        if self.depth > 90:
            raise Budget("call depth")
        if n > 5 and f.get("local", True):
            raise Budget("recursion in %s" % f.get("name"))
        self.depth += 1
        self.active[f.get("name")] = n + 1
        if f.get("name"):
            self.stats["fns"].add(f["name"])
        try:
            return self.body_outs(st, f, args, keep)
        finally:
            self.depth -= 1
            self.active[f.get("name")] = n

    def body_outs(self, st, f, args, keep):
        fid = self.uid()
        fr = Frame(f, fid, self.loops_of(f)[0])
        for i, a in enumerate(args):
            st.store[("L", fid, i + 1)] = a
        where = st.where
        outs = []
        for o in self.region(fr, 0, st, None, None):
            s2 = o[1]
            s2.where = where
            if o[0] == "ret":
                v = s2.store.get(("L", fid, 0), UNIT)
                if not keep:
                    for r in [r for r in s2.store if r[0] == "L" and r[1] == fid]:
                        del s2.store[r]
                outs.append(("ret", s2, v))
            else:
                outs.append(o)
        return outs

    def region(self, fr, bb, st, header, body):
        work = [(bb, st, True)]
        out = []
        while work:
            bb, st, start = work.pop()
            if body is not None:
                if bb == header and not start:
                    out.append(("back", st))
                    continue
                if bb not in body:
                    out.append(("exit", st, bb))
                    continue
            if bb in fr.loops and not (start and bb == header):
                lb = fr.loops[bb]
                n = self.turns(fr, st, lb)
                once = self.few_turns(fr, bb, st, lb, n) if n is not None else None
                for o in once if once is not None else self.fixloop(st, lambda s, bb=bb, lb=lb: self.region(fr, bb, s, bb, lb), "%s:bb%d" % (fr.f.get("name", "?"), bb)):
                    if o[0] == "exit":
                        work.append((o[2], o[1], False))
                    else:
                        out.append(o)
                continue
            for o in self.block(fr, bb, st):
                if o[0] == "goto":
                    work.append((o[2], o[1], False))
                else:
                    out.append(o)
        return out

    def turns(self, fr, st, lb):
        """how often a loop over a handful of values written out in the program is run, or None"""
        n = None
        for b in lb:
            for x in fr.f["blocks"][b]["st"]:
                if x[0] == "=" and x[2]["r"] == "ref" and len(x[2]["p"]) == 1:
                    v = st.store.get(("L", fr.fid, x[2]["p"][0]))
                    if isinstance(v, Term) and v.op == "it":
                        m = self.models.it_len(v)
                        if m is None or m.op != "int" or not 0 <= m.args[0] <= 4:
                            return None
                        n = m.args[0] if n is None else None
                        if n is None:
                            return None
        return n

    def few_turns(self, fr, bb, st, lb, n):
        """every turn of such a loop by itself; None when there are more of them after all"""
        work, ends = [st], []
        for _ in range(n + 1):
            outs = [o for s in work for o in self.region(fr, bb, s, bb, lb)]
            ends += [o for o in outs if o[0] != "back"]
            work = [o[1] for o in outs if o[0] == "back"]
        return None if work else ends

    def block(self, fr, bb, st):
        """run one basic block; yields ('goto', st, bb) / ('ret', st) / ('panic', st, why)"""
        res = []
        work = [(0, st)]
        b = fr.f["blocks"][bb]
        stmts = b["st"]
        self.stats["blocks"] += 1
        while work:
            i, st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step limit")
            try:
                while i < len(stmts):
                    self.stmt(st, fr, stmts[i])
                    i += 1
                backup = st.copy() if b["term"]["t"] in ("call", "drop") else st
                try:
                    fr.bb = bb
                    res.extend(self.term(st, fr, b["term"]))
                except Split:
                    st = backup
                    raise
            except Split as sp:
                for alt in sp.alts:
                    s2 = st.copy()
                    if s2.assume(alt):
                        work.append((i, s2))
        return res

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            st.where = (fr.f.get("name", "?"), s[3])
            v = self.rvalue(st, fr, s[2])
            root, proj = self.place(st, fr, s[1])
            self.write_hook(st, root, proj, v)
            self.write(st, root, proj, v)
        elif k == "dead":
            pass
        elif k == "sd":
            raise Budget("set discriminant")
        elif k == "assume":
            c = self.operand(st, fr, s[1])
            st.facts.assume(c)

    def write_hook(self, st, root, proj, v):
        pass

    def branch(self, st, cond):
        """[(state, bool)] for a condition"""
        d = st.facts.decide(cond)
        if d is not None:
            return [(st, d)]
        out = []
        for c, val in ((cond, True), (neg(cond), False)):
            if c.op == "or":
                # split into disjoint alternatives
                prev = []
                for x in c.args:
                    s2 = st.copy()
                    ok = all(s2.assume(neg(p)) for p in prev) and s2.assume(x)
                    if ok:
                        out.append((s2, val))
                    prev.append(x)
            else:
                s2 = st.copy()
                if s2.assume(c):
                    out.append((s2, val))
        return out

    def variants_of(self, st, v, tid):
        """[(state, variant index)] for an opaque enum value"""
        v2 = self.force(st, v)
        if v2.op == "adt":
            return [(st, v2.args[1])]
        self.note_type(v, tid)
        out = []
        for i in range(len(self.types[tid]["variants"])):
            s2 = st.copy()
            if s2.assume(T("isvar", v, i)):
                out.append((s2, i))
        return out

    def term(self, st, fr, t):
        k = t["t"]
        if k == "goto":
            return [("goto", st, t["to"])]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if "sp" in t:
            st.where = (fr.f.get("name", "?"), t["sp"])
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            if c.op == "ovf":
                self.assumed.add("no arithmetic overflow in " + c.args[0])
                return [("goto", st, t["to"])]
            if not t["e"]:
                c = neg(c)
            out = []
            for s2, v in self.branch(st, c):
                if v:
                    out.append(("goto", s2, t["to"]))
                else:
                    s2.ev("panic", why=t["m"])
                    out.append(("panic", s2, t["m"]))
            return out
        if k == "drop":
            root, proj = self.place(st, fr, t["p"])
            self.drop(st, self.read(st, root, proj))
            return [("goto", st, t["to"])]
        if k == "call":
            return self.call(st, fr, t)
        raise Budget("terminator " + k)

    def drop(self, st, v):
        if v.op == "guard":
            key = v.args[2]
            kinds = list(st.borrows.get(key, ()))
            if v.args[0] in kinds:
                kinds.remove(v.args[0])
            if kinds:
                st.borrows[key] = tuple(kinds)
            else:
                st.borrows.pop(key, None)
        elif v.op in ("adt", "tuple", "closure", "box", "it"):
            for a in v.args:
                if isinstance(a, Term):
                    self.drop(st, a)
        else:
            fv = v
            if fv is not v:
                self.drop(st, fv)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["d"])
        dt = self.types[t["dt"]]
        out = []
        if dt["k"] == "bool":
            for s2, b in self.branch(st, v):
                tgt = None
                for cv, bb in t["cases"]:
                    if int(cv) == (1 if b else 0):
                        tgt = bb
                out.append(("goto", s2, t["else"] if tgt is None else tgt))
            return out
        if v.op == "discr":
            e, tid = v.args
            vs = self.types[tid]["variants"]
            cases = {int(c): bb for c, bb in t["cases"]}
            for i, vr in enumerate(vs):
                tgt = cases.get(int(vr["discr"]), t["else"])
                if fr.f["blocks"][tgt]["term"]["t"] == "unreachable":
                    continue
                s2 = st.copy()
                if s2.assume(T("isvar", e, i)):
                    out.append(("goto", s2, tgt))
            return out
        rest = st
        alive = True
        v = self.signed(v, dt)
        for cv, bb in t["cases"]:
            c = ieq(v, self.signed(I(int(cv)), dt))
            s2 = rest.copy()
            if s2.assume(c):
                out.append(("goto", s2, bb))
            rest = rest.copy()
            if not rest.assume(neg(c)):
                alive = False
                break
        if alive:
            out.append(("goto", rest, t["else"]))
        return out

    # ------------------------------------------------------------ calls

    def call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t["args"]]
        fo = t["f"]
        if fo["o"] == "k":
            ft = fo["t"]
            fv = T("fndef", ft)
        else:
            fv = self.operand(st, fr, fo)
        res = []
        outs = self.next_in_loop(st, fr, t, fv, args, res)
        if outs is None:
            outs = self.apply(st, fv, args, at=t["at"], rt=t["rt"], diverges=t["to"] is None)
        for o in outs:
            if o[0] == "ret":
                s2, v = o[1], o[2]
                s2.where = (fr.f.get("name", "?"), t["sp"])
                v = self.wrap_ret(s2, v, t["rt"])
                if t["to"] is None:
                    s2.ev("panic", why="diverge")
                    res.append(("panic", s2, "diverge"))
                    continue
                root, proj = self.place(s2, fr, t["dest"])
                self.write_hook(s2, root, proj, v)
                self.write(s2, root, proj, v)
                res.append(("goto", s2, t["to"]))
            else:
                res.append(o)
        return res

    def next_in_loop(self, st, fr, t, fv, args, res):
        """a loop that takes its next element from an iterator that leaves some out: leaving one out is a turn of
        the loop that does nothing"""
        bb = fr.bb
        if fv.op != "fndef" or bb not in fr.loops:
            return None
        ct = self.types[fv.args[0]] if isinstance(fv.args[0], int) else None
        if not ct or ct.get("method") != "next" or not (ct.get("trait") or "").startswith("std::iter::Iterator"):
            return None
        if any(s[0] == "=" and s[2]["r"] not in ("ref", "reborrow", "use") for s in fr.f["blocks"][bb]["st"]):
            return None
        v, wb = self.models.it_arg(self, st, args[0])
        if v is None or wb is None or v.op != "it" or not self.models.may_skip(v):
            return None
        outs = []
        for o in self.models.step(self, st, v):
            if o[0] == "panic":
                outs.append(o)
                continue
            s2, it2, kind, e = o
            self.write(s2, wb[0], wb[1], it2)
            if kind == "skip":
                res.append(("goto", s2, bb))
            else:
                outs.append(("ret", s2, self.models.SOME(e) if kind == "elem" else self.models.NONE))
        return outs

    def impl_of(self, tid, method):
        return self.impls.get((tid, method))

    def snapshot(self, st):
        """what a checker wants to remember of the state at an event"""
        return None

    def virtual_call(self, st, ct, args, at, rt):
        st.ev("virtual", method=ct["method"], trait=ct.get("trait"), args=tuple(args))
        for a, t in zip(args, at):
            self.havoc(st, a, self.types[t], "virtual")
        return T("unk", "virtual", ct["method"])

    def wrap_ret(self, st, v, tid):
        self.note_type(v, tid)
        return v

    def closure_body(self, cv):
        t = self.types[cv.args[0]]
        return t.get("inst")

    def apply(self, st, fv, args, at=None, rt=None, diverges=False):
        """call a function value; returns outcomes"""
        self.stats["calls"] += 1
        n = 0
        while fv.op in ("ref", "vref") and n < 10:
            n += 1
            if fv.op == "ref":
                nv = self.read(st, fv.args[0], tuple(fv.args[1:]))
                if nv.op == "closure":
                    return self.apply_closure(st, nv, args, fv)
                fv = nv
            else:
                fv = fv.args[0]
        if fv.op == "closure":
            return self.apply_closure(st, fv, args, None)
        if fv.op == "box":
            return self.apply(st, fv.args[0], args, at, rt, diverges)
        if fv.op != "fndef":
            return self.models.call_opaque(self, st, fv, args)
        ct = self.types[fv.args[0]]
        if at is None and len(ct.get("sig") or ()) == len(args) + 1:
            at, rt = ct["sig"][:-1], ct["sig"][-1]
        return self.call_fn(st, ct, args, at, rt, diverges)

    def apply_closure(self, st, cv, args, ref):
        key = self.closure_body(cv)
        if key is None or key not in self.fns:
            st.imprecise("closure body missing")
            return [("ret", st, T("unk", "closure"))]
        f = self.fns[key]
        selfty = self.types[f["locals"][1][0]]
        if selfty["k"] == "ref":
            if ref is None:
                root = ("T", self.uid())
                st.store[root] = cv
                ref = T("ref", root)
            a0 = ref
        else:
            a0 = cv
        return self.run_body(st, f, [a0] + list(args))

    def call_fn(self, st, ct, args, at=None, rt=None, diverges=False):
        name = canon(ct["name"])
        impl = canon(ct.get("impl", ct["name"]))
        if ct.get("kind") == "ctor":
            rtid = ct["ret"]
            return [("ret", st, T("adt", self.types[rtid]["path"], ct["variant"], *args))]
        for nm in (impl, name):
            p = self.prims.get(nm)
            if p is not None:
                r = p(self, st, args, ct)
                if r is not None:
                    return self.as_outs(st, r)
        tr = ct.get("trait", "")
        if ct.get("method") in ("call", "call_mut", "call_once") and tr.startswith("std::ops::Fn"):
            tup = args[1]
            targs = list(tup.args) if tup.op == "tuple" else [self.project(st, tup, ("f", i)) for i in range(len(self.types[at[1]]["args"]))] if at else []
            return self.models.call_value(self, st, args[0], targs)
        key = ct.get("inst")
        if key and (ct.get("impl_local") or ct.get("local")) and key in self.fns:
            return self.inline(st, key, args)
        m = self.models.lookup(name, impl, ct)
        if m is not None:
            r = m(self, st, args, ct, at, rt)
            if r is not None:
                return self.as_outs(st, r)
        if key and key in self.fns:
            return self.inline(st, key, args)
        return self.unmodelled_call(st, name, args, ct, at, diverges)

    def inline(self, st, key, args):
        f = self.fns[key]
        if f.get("spread") is not None:
            sp = f["spread"]
            args = list(args[: sp - 1]) + [args[sp - 1]]
        return self.run_body(st, f, args)

    def as_outs(self, st, r):
        if isinstance(r, Term):
            return [("ret", st, r)]
        out = []
        for x in r:
            out.append(x if x[0] in ("ret", "panic") else ("ret", x[0], x[1]))
        return out

    def unmodelled_call(self, st, name, args, ct, at, diverges):
        if diverges:
            st.ev("panic", why=name)
            return [("panic", st, name)]
        self.unmodelled.add(name)
        vals = [self.val(st, a) for a in args]
        for i, a in enumerate(args):
            ty = self.types[at[i]] if at else None
            self.havoc(st, a, ty, name)
        v = T("unk", name, *vals)
        return [("ret", st, v)]

    def havoc(self, st, a, ty, name):
        if ty is not None and ty["k"] == "ref" and not ty["mut"]:
            return
        if a.op == "ref" and (ty is None or ty["k"] in ("ref", "ptr")):
            root, proj = a.args[0], tuple(a.args[1:])
            old = self.read(st, root, proj)
            st.ev("unmodelled-mut", name=name, root=root, proj=proj)
            self.write(st, root, proj, T("unk", "mut:" + name, self.uid(), old))
        elif a.op == "closure":
            ups = self.types[a.args[0]]["upvars"]
            for x, u in zip(a.args[1:], ups):
                self.havoc(st, x, self.types[u], name)

    # ------------------------------------------------------------ loops

    def one_line(self, st, s):
        """is a text known to hold no line feed except as its last character?"""
        return False

    def on_elem(self, st, base, k):
        """hook: an element of a sequence is taken"""

    def generalise(self, lid, path, v, vs, lvs):
        if all(x is v for x in vs):
            return v
        if v.op == "lv" and v.args[0] == lid:
            return v
        if v.op in STRUCT and all(x.op == v.op and len(x.args) == len(v.args) for x in vs):
            same = all(
                (not isinstance(a, Term)) <= all(x.args[i] == a for x in vs) for i, a in enumerate(v.args)
            )
            if same:
                na = []
                for i, a in enumerate(v.args):
                    if isinstance(a, Term):
                        na.append(self.generalise(lid, path + (i,), a, [x.args[i] for x in vs], lvs))
                    else:
                        na.append(a)
                return T(v.op, *na)
        # a sequence of which each turn leaves the beginning
        base, lo, hi = v.args if v.op == "sl" else (v, I(0), None)
        if base.op not in ("cat", "nil", "str", "bytes", "lv", "unk") and any(x is not v for x in vs) and all(x is v or x.op == "sl" and x.args[0] is base and x.args[1] is lo for x in vs):
            if hi is not None and hi.op == "lv" and hi.args[0] == lid:
                return v
            lv = T("lv", lid, path + (2,))
            lvs[lv] = (path + (2,), hi if hi is not None else self.seq_len(v))
            self.ends[lv] = lo
            return T("sl", base, lo, lv)
        lv = T("lv", lid, path)
        lvs[lv] = (path, v)
        if v in self.enum_ty:
            self.enum_ty[lv] = self.enum_ty[v]
        return lv

    def at_path(self, store, path):
        v = store.get(path[0])
        for i in path[1:]:
            if v is None or i >= len(v.args):
                return None
            v = v.args[i]
        return v

    def fixloop(self, S0, iterate, tag):
        self.stats["loops"] += 1
        lid = self.uid()
        lvs = {}
        W = S0.copy()
        mark = self.steps
        for rnd in range(12):
            backs = [o[1] for o in iterate(W.copy()) if o[0] == "back"]
            if not backs:
                break
            changed = False
            ns = {}
            for root, v in W.store.items():
                if root[0] == "V":
                    continue
                vs = [b.store.get(root, v) for b in backs]
                nv = self.generalise(lid, (root,), v, vs, lvs)
                if nv is not v:
                    changed = True
                    ns[root] = nv
            if not changed:
                break
            W = S0.copy()
            W2 = dict(W.store)
            for root in list(W2):
                pass
            # re-apply all generalisations found so far
            self._acc = getattr(self, "_acc", {})
            acc = self._acc.setdefault(lid, {})
            acc.update(ns)
            W2.update(acc)
            W.store = W2
        else:
            raise Budget("loop does not stabilise: " + tag)
        getattr(self, "_acc", {}).pop(lid, None)
        info = {"lid": lid, "tag": tag, "lvs": lvs, "transitions": [], "cands": []}
        # candidate relations
        ints = []
        for lv, (path, init) in lvs.items():
            isint = init.op in ("int", "lin")
            if not isint:
                for b in backs:
                    nv = self.at_path(b.store, path)
                    if nv is not None and nv.op in ("int", "lin"):
                        isint = True
            if isint and init.op not in ("cat", "nil", "sl", "str", "adt", "tuple"):
                ints.append((lv, init))
        cands = []
        for lv, init in ints:
            cands += [le0(sub(init, lv)), le0(sub(lv, init))]
            if lv in self.ends:
                cands.append(le(self.ends[lv], lv))
        for i, (v, v0) in enumerate(ints):
            for w, w0 in ints[i + 1:]:
                d = sub(sub(v, w), sub(v0, w0))
                s = sub(add(v, w), add(v0, w0))
                cands += [le0(d), le0(scale(d, -1)), le0(s), le0(scale(s, -1))]
                if S0.facts.entails_le0(sub(v0, w0)):
                    cands.append(le0(sub(v, w)))
                if S0.facts.entails_le0(sub(w0, v0)):
                    cands.append(le0(sub(w, v)))
        # sequences that keep their length
        for lv, (path, init) in lvs.items():
            if init.op in ("cat", "nil", "sl", "sym") and any((self.at_path(b.store, path) or init).op in ("cat", "nil", "sl") for b in backs):
                d = sub(T("len", lv), self.seq_len(init))
                cands += [le0(d), le0(scale(d, -1))]
        # bounds against the ends of the iterations that are under way
        for root, v in W.store.items():
            for x in subterms(v) if v.op in STRUCT else ():
                if x.op == "it" and x.args[0] == "base":
                    lo, hi = x.args[2], x.args[3]
                    for a in (lo, hi):
                        if a in lvs:
                            ilo = lvs[lo][1] if lo in lvs else lo
                            ihi = lvs[hi][1] if hi in lvs else hi
                            if S0.facts.entails_le0(sub(ilo, ihi)):
                                cands.append(le0(sub(lo, hi)))
                            break
        # what the loop's own condition leaves when it fails for the first time
        intlvs = {v for v, _ in ints}
        n0 = len(S0.pc)
        for b in backs:
            for c in b.pc[n0:]:
                if c.op == "le0":
                    ps = parts(c.args[0])[1]
                    if any(x in intlvs and abs(k) == 1 for x, k in ps.items()) and not any(x.op == "lv" and x not in lvs for x in subterms(c)):
                        cands.append(le0(sub(c.args[0], I(1))))
        # inequality facts of the entry state, restated over the loop variables
        back = {}
        for lv, (path, init) in lvs.items():
            if init.op not in ("int",):
                back.setdefault(init, lv)
        if back:
            for f in S0.facts.les:
                g = subst(f, back)
                if g is not f:
                    cands.append(le0(g))
        cands += [c for c in self.extra_candidates(S0, W, lvs)]
        seen, uc = set(), []
        for c in cands:
            if c.op != "bool" and c not in seen:
                seen.add(c)
                uc.append(c)
        cands = uc
        initmap = {lv: init for lv, (path, init) in lvs.items()}
        cands = [c for c in cands if S0.facts.decide(self.relen(subst(c, initmap))) is True]
        while True:
            Wc = W.copy()
            for c in cands:
                Wc.facts.assume(c)
            if lvs:
                Wc.events = Wc.events + (Event("loop", {"info": info}, *S0.where),)
            base_pc, base_ev = len(Wc.pc), len(Wc.events)
            outs = iterate(Wc.copy())
            bad = set()
            trs = []
            for o in outs:
                if o[0] != "back":
                    continue
                b = o[1]
                m = {}
                for lv, (path, init) in lvs.items():
                    nv = self.at_path(b.store, path)
                    m[lv] = nv if nv is not None else T("unk", "lost")
                trs.append({"pc": b.pc[base_pc:], "events": b.events[base_ev:], "next": m, "state": b})
                for c in cands:
                    if c not in bad and b.facts.decide(self.relen(subst(c, m))) is not True:
                        bad.add(c)
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        info["transitions"], info["cands"] = trs, cands
        res = []
        for o in outs:
            if o[0] == "back":
                continue
            if lvs:
                for s2 in self.summaries(S0, o[1], info):
                    res.append((o[0], s2) + tuple(o[2:]))
            else:
                res.append(o)
        return res

    def relen(self, t):
        """lengths of sequences put together, in terms of the lengths of their parts"""
        return rewrite(t, lambda x: self.seq_len(x.args[0]) if x.op == "len" and len(x.args) == 1 and x.args[0].op in ("cat", "nil", "sl", "el") else None)

    def extra_candidates(self, S0, W, lvs):
        return []

    # -- loop results in closed form

    def summaries(self, S0, st, info, depth=8):
        """the same with the case distinctions that the closed forms need"""
        base = st.copy()
        try:
            return self.summarise(S0, st, info)
        except Split as sp:
            if not depth:
                return self.summarise(S0, base, dict(info, nosplit=True))
            out = []
            for alt in sp.alts:
                s2 = base.copy()
                if s2.assume(alt):
                    out += self.summaries(S0, s2, info, depth - 1)
            return out

    def summarise(self, S0, st, info):
        """Replace loop variables in a state that leaves the loop by closed forms where there is one."""
        lvs, trs = info["lvs"], info["transitions"]
        if not trs:
            return [st]
        # the iteration index: +1 (or -1) on every transition
        k = step = None
        for lv, (path, init) in lvs.items():
            ds = {sub(t["next"][lv], lv) for t in trs}
            if ds == {I(1)} or ds == {I(-1)}:
                # prefer iterator positions
                pos = self.is_iter_pos(S0, path)
                if k is None or pos:
                    k, step, k0 = lv, (1 if ds == {I(1)} else -1), init
                    if pos:
                        break
        if k is None:
            return [st]
        info["index"] = (k, k0, step)
        info["iter"] = self.is_iter_pos(S0, lvs[k][0]) or k in self.ends
        info["closed"] = {}
        others = [lv for lv in lvs if lv is not k]
        # counters that advance in step with the index
        along = {}
        for lv in others:
            ds = {sub(t["next"][lv], lv) for t in trs}
            if len(ds) == 1:
                d = next(iter(ds))
                if d.op == "int" and lvs[lv][1].op in ("int", "lin", "sym", "vf", "fld", "len", "at") and d.args[0] != 0:
                    along[lv] = add(lvs[lv][1], scale(sub(k, k0), d.args[0] * step))
        for lv, r in along.items():
            st.facts.assume(ieq(lv, r))
        kend = self.solve_for(st, k, set(lvs))
        info["end"] = kend
        st.ev("loopend", info=info, k0=k0, step=step, end=kend if kend is not None else k)
        if along:
            memo = {}
            trs = [dict(t, pc=tuple(subst(c, along, memo) for c in t["pc"]), next={lv: subst(v, along, memo) for lv, v in t["next"].items()}) for t in trs]
            info["closed"].update(along)
            info = dict(info, transitions=trs)
        sts = [(st, {lv.id: (lv, subst(r, {k: kend}) if kend is not None else r) for lv, r in along.items()})]
        left, again = [lv for lv in others if lv not in along], True
        while left and again:
            again = False
            for lv in list(left):
                path, init = lvs[lv]
                r = self.closed_form(S0, st, info, lv, init, k, k0, step, others)
                info["closed"][lv] = r
                if r is None:
                    continue
                left.remove(lv)
                if step == 1 and (r.op in ("lin", "goff", "coff") and not has_op(r, "countif") and not has_op(r, "since") or self.counts_lines(r)) and any(lv in subterms(v) for t in info["transitions"] for v in t["pc"] + tuple(t["next"][w] for w in left if t["next"][w] is not None)):
                    # what depends on it may have a closed form now
                    memo, again = {}, True
                    trs = [dict(t, pc=tuple(subst(c, {lv: r}, memo) for c in t["pc"]), next={w: v if v is None else subst(v, {lv: r}, memo) for w, v in t["next"].items()}) for t in info["transitions"]]
                    info = dict(info, transitions=trs)
                if kend is not None:
                    r = subst(r, {k: kend})
                if r.op == "overw":
                    init, x, tgt, lo, hi = r.args
                    nxt = []
                    for s2, m in sts:
                        for cs, val in (((le(lo, tgt), lt(tgt, hi)), x), ((le(hi, tgt),), init), ((lt(tgt, lo),), init)):
                            s3 = s2.copy()
                            if all(s3.assume(c) for c in cs):
                                nxt.append((s3, {**m, lv.id: (lv, val)}))
                    sts = nxt
                    continue
                for s2, m in sts:
                    m[lv.id] = (lv, self.tidy(s2, r))
        out = []
        for s2, mm in sts:
            m, ok = dict(mm.values()), True
            if kend is not None:
                m[k] = kend
            if m:
                memo = {}
                for root in list(s2.store):
                    v = s2.store[root]
                    nv = subst(v, m, memo)
                    if nv is not v:
                        s2.store[root] = nv
                s2.pc = tuple(c for c in (subst(c, m, memo) for c in s2.pc) if c is not TRUE)
                s2.events = tuple(Event(e.kind, {a: (subst(b, m, memo) if isinstance(b, (Term, tuple)) else b) for a, b in e.d.items()}, e.fn, e.span) for e in s2.events)
                for d in (s2.facts.variants, s2.facts.notvar, s2.facts.bools):
                    for v, i in list(d.items()):
                        nv = subst(v, m, memo)
                        if nv is not v:
                            d.setdefault(nv, i)
                for lv, r in m.items():
                    if lvs[lv][1].op in ("int", "lin") or r.op in ("int", "lin"):
                        ok = s2.facts.assume(ieq(lv, r)) and ok
                    elif r.op in ("cat", "nil", "sl"):
                        ok = s2.facts.assume(ieq(T("len", lv), self.seq_len(r))) and ok
            self.passed(s2, trs, k, k0, step, kend)
            if ok and s2.facts.feasible():
                out.append(s2)
        return out

    def passed(self, st, trs, k, k0, step, kend):
        """what a loop over characters that stops at the first of a kind has found, and where"""
        at = kend if kend is not None else k
        terms = {x for v in st.store.values() for x in subterms(v) if isinstance(x, Term) and x.op in ("coff", "goff") and len(x.args) == 2}
        for x in terms:
            if st.facts.decide(lt(x.args[1], T("len", x.args[0]))) is True:
                e = T("at", x.args[0], x.args[1])
                n = T("len_utf8", e) if x.op == "coff" else T("len", e)
                st.facts.assume(le(add(x, n), self.seq_len(x.args[0].args[0])))
                if x.op == "goff":
                    st.facts.assume(le(I(1), n))
        if step == 1 and trs:
            # the indices that the loop has not stopped at
            for c in trs[0]["pc"]:
                if c.op != "not" or c.args[0].op != "eq0" or not all(c in t["pc"] for t in trs):
                    continue
                co, ps = parts(c.args[0].args[0])
                if abs(ps.get(k, 0)) != 1:
                    continue
                tgt = sub(k, scale(c.args[0].args[0], ps[k]))
                if any(x is k or x.op == "lv" for x in subterms(tgt)):
                    continue
                if st.facts.decide(lt(tgt, k0)) is False:
                    st.facts.assume(le(at, tgt))
                elif st.facts.decide(le(at, tgt)) is False:
                    st.facts.assume(lt(tgt, k0))
        if step != 1 or k0 is not I(0) or not trs:
            return
        for c in trs[0]["pc"]:
            if c.op != "not" or c.args[0].op != "eq0" or not all(c in t["pc"] for t in trs):
                continue
            co, ps = parts(c.args[0].args[0])
            if len(ps) != 1:
                continue
            (x, q), = ps.items()
            if x.op != "at" or abs(q) != 1 or not 0 <= -co * q < 128:
                continue
            seq, first = x.args[0], sub(x.args[1], k)
            if any(y is k for y in subterms(first)):
                continue
            if seq.op == "chars":
                if first is not I(0):
                    continue
                S, off = seq.args[0], (lambda i: T("coff", seq, i) if i is not I(0) else I(0))
            elif seq.op in ("graphemes", "split", "lines", "matches", "comp", "rev", "derefs"):
                continue
            else:
                S, off = (seq if first is I(0) else self.seq_slice(st, seq, first, self.seq_len(seq))), (lambda i: i)
            v = T("app", "find", S, T("str", chr(-co * q)))
            self.enum_ty.setdefault(v, self.ty_by_s.get("std::option::Option<usize>"))
            if self._eq(st, at, sub(self.base_len(seq), first)):
                st.facts.assume(T("isvar", v, 0))
            elif st.facts.decide(eq0(subst(c.args[0].args[0], {k: at}))) is True:
                if st.facts.assume(T("isvar", v, 1)):
                    st.facts.assume(ieq(T("vf", v, 1, 0), off(at)))
                    if seq.op == "chars":
                        st.facts.assume(ieq(T("len_utf8", subst(x, {k: at})), I(1)))

    def solve_for(self, st, k, lvs):
        """the value the facts force a loop variable to have, as an expression without loop variables"""
        for f in st.facts.les:
            c, p = parts(f)
            co = p.get(k)
            if co in (1, -1):
                e = scale(sub(f, scale(k, co)), -co)
                if any(x in lvs for x in subterms(e)):
                    continue
                if st.facts.entails_eq0(sub(k, e)):
                    return e
        return None

    def tidy(self, st, t):
        """canonical forms of what loops compute"""
        def rule(x):
            if x.op == "since":
                conds, init, lo, hi = x.args
                if len(conds) == 1 and lo is I(0) and init is I(0):
                    g = self.nl_cluster(conds[0])
                    if g is not None and self._eq(st, hi, T("len", g)):
                        return T("len", T("graphemes", T("lastseg", g.args[0], T("str", "\n")), TRUE))
                    if conds[0].op == "eq0":
                        c, p = parts(conds[0].args[0])
                        if len(p) == 1:
                            (a, k), = p.items()
                            if a.op == "at" and a.args[1] is T("bv") and a.args[0].op == "chars" and self._eq(st, hi, T("len", a.args[0])) and k in (1, -1) and 0 <= -c * k < 0x110000:
                                return T("len", T("chars", T("lastseg", a.args[0].args[0], T("str", chr(-c * k)))))
            if x.op in ("coff", "goff") and len(x.args) == 2 and self._eq(st, x.args[1], T("len", x.args[0])):
                return self.seq_len(x.args[0].args[0])
            if x.op == "countif":
                conds, lo, hi = x.args
                if len(conds) == 1 and lo is I(0):
                    g = self.nl_cluster(conds[0])
                    if g is not None and self._eq(st, hi, T("len", g)):
                        return T("occ", g.args[0], T("str", "\n"))
                if len(conds) == 1 and conds[0].op == "eq0" and lo is I(0):
                    c, p = parts(conds[0].args[0])
                    if len(p) == 1:
                        (a, k), = p.items()
                        if a.op == "at" and a.args[1] is T("bv") and (k == 1 or k == -1):
                            ch = -c * k
                            s = a.args[0]
                            if s.op == "chars" and self._eq(st, hi, T("len", s)) and 0 <= ch < 0x110000:
                                return T("occ", s.args[0], T("str", chr(ch)))
                            if s.op not in ("chars", "graphemes", "split", "lines", "matches") and self._eq(st, hi, self.base_len(s)) and 0 <= ch < 128:
                                return T("occ", s, T("str", chr(ch)))
            return None
        return rewrite(t, rule)

    def nl_cluster(self, c):
        """the clusters of which a condition on the bound variable says that they end a line"""
        if c.op == "le0":
            k, p = parts(c.args[0])
            if len(p) == 1:
                (a, co), = p.items()
                if a.op == "gcls" and co == 1 and k == -1 and a.args[0].op == "at" and a.args[0].args[1] is T("bv") and a.args[0].args[0].op == "graphemes" and a.args[0].args[0].args[1] is TRUE:
                    return a.args[0].args[0]
        return None

    def is_iter_pos(self, S0, path):
        v = S0.store.get(path[0])
        last = None
        for i in path[1:]:
            last = (v, i)
            if v is None or not isinstance(v, Term) or i >= len(v.args):
                return False
            v = v.args[i]
        return last is not None and last[0].op == "it" and last[0].args[0] == "base" and last[1] in (2, 3)

    def closed_form(self, S0, st, info, lv, init, k, k0, step, others):
        trs = info["transitions"]
        oth = set(others)

        def pure(t):
            return not any(x in oth for x in subterms(t))

        # what every turn has in common is the loop's own condition; conditions on other loop variables do
        # not matter where those on the index alone determine what happens
        trs = self.projected(trs, lv, pure, k)
        if trs is None:
            return None
        deltas = [sub(t["next"][lv], lv) if t["next"][lv] is not None else None for t in trs]
        if step == 1 and all(d is not None and d.op == "int" and d.args[0] in (0, 1) for d in deltas) and not all(d is I(1) for d in deltas):
            conds = []
            ok = True
            for t, d in zip(trs, deltas):
                if not all(pure(c) for c in t["pc"]):
                    ok = False
                if d is I(1):
                    conds.append(self.lam(t["pc"], k))
            if ok and conds:
                return add(init, T("countif", tuple(sorted(conds)), k0, k))
        # the lengths of the characters or clusters passed
        if step == 1 and deltas and deltas[0] is not None and all(d is deltas[0] for d in deltas):
            d = deltas[0]
            x = d.args[0] if d.op in ("len_utf8", "len") and len(d.args) == 1 else None
            if x is not None and x.op == "at" and x.args[1] is k and x.args[0].op == ("chars" if d.op == "len_utf8" else "graphemes"):
                op = "coff" if d.op == "len_utf8" else "goff"
                a = I(0) if k0 is I(0) else T(op, x.args[0], k0)
                return sub(add(init, T(op, x.args[0], k)), a)
        # set in every turn to where this turn's element ends, and before the first to where that one begins
        if step == 1 and trs and trs[0]["next"][lv] is not None and all(t["next"][lv] is trs[0]["next"][lv] for t in trs):
            x = trs[0]["next"][lv]
            if pure(x) and x.op == "lin":
                y = None
                co, ps = parts(x)
                for a, n in ps.items():
                    if a.op in ("coff", "goff") and len(a.args) == 2 and a.args[1] is k:
                        e = T("at", a.args[0], k)
                        w = T("len_utf8", e) if a.op == "coff" else T("len", e)
                        if ps.get(w) == n and not any(k in subterms(b) for b in ps if b is not a and b is not w):
                            y = sub(x, scale(w, n))
                if y is None and k in ps and not any(k in subterms(b) for b in ps if b is not k):
                    y = subst(x, {k: sub(k, I(1))})
                if y is not None:
                    first = subst(y, {k: k0})
                    if k0 is I(0):
                        first = rewrite(first, lambda z: I(0) if z.op in ("coff", "goff") and len(z.args) == 2 and z.args[1] is I(0) else None)
                    if self._eq(st, init, first):
                        return y
        # a counter that starts again whenever a condition holds
        resets = [t for t, d in zip(trs, deltas) if t["next"][lv] is I(0) and d is not I(1)]
        incs = [t for t, d in zip(trs, deltas) if d is I(1)]
        if step == 1 and resets and incs and len(resets) + len(incs) == len(trs) and all(pure(c) for t in trs for c in t["pc"]):
            conds = tuple(sorted(self.lam(t["pc"], k) for t in resets))
            return T("since", conds, init, k0, k)
        # conditional overwrite on one index
        ups = [t for t in trs if t["next"][lv] is not lv]
        if step == 1 and len(ups) >= 1:
            nv = {t["next"][lv] for t in ups}
            if len(nv) == 1:
                x = next(iter(nv))
                if pure(x):
                    s = ups[0]["state"]
                    for c in ups[0]["pc"]:
                        if c.op == "eq0":
                            co, ps = parts(c.args[0])
                            if k in ps and abs(ps[k]) == 1 and len(ups) == 1:
                                tgt = scale(sub(c.args[0], scale(k, ps[k])), -ps[k])
                                rest = [d for d in ups[0]["pc"] if d is not c]
                                if pure(tgt) and k not in parts(tgt)[1] and not rest:
                                    return T("overw", init, subst(x, {k: tgt}), tgt, k0, k)
        # comprehension: every transition appends a function of the element, or nothing
        if step == 1 and trs:
            r = self.comprehension(st, trs, lv, init, k, k0, k, pure)
            if r is not None:
                return r
        if step == -1 and trs:
            up = {k: add(k, I(1))}
            down = [dict(t, pc=tuple(subst(c, up) for c in t["pc"]), next=dict(t["next"], **{})) for t in trs]
            for t in down:
                t["next"] = dict(t["next"])
                if t["next"][lv] is not None:
                    t["next"][lv] = subst(t["next"][lv], up)
            r = self.comprehension(st, down, lv, T("nil"), k, k, k0, pure) or self.appended_one(down, lv, T("nil"), st, k, k, k0, pure)
            if r is not None and (r.op == "sl" or r.op in ("comp", "filt") or r.op == "cat" and len(r.args) == 1 and r.args[0].op == "sl" and r.args[0].args[0].op in ("comp", "filt")):
                return self.seq_cat(st, init, T("rev", r))
        r = self.filled(st, trs, lv, init, k, k0, step, pure, info.get("nosplit")) or self.folded(trs, lv, init, k, k0, step, pure)
        if r is not None:
            return r
        return self.appended_one(trs, lv, init, st, k, k0, k, pure) if step == 1 else None

    def counts_lines(self, r):
        """how many of the first lines of a text meet a condition"""
        if r.op != "countif" or r.args[1] is not I(0):
            return False
        return any(x.op == "at" and x.args[0].op in ("split", "lines") and x.args[1] is T("bv") for c in r.args[0] for x in subterms(c))

    def appended_one(self, trs, lv, init, st, k, lo, hi, pure):
        apps = set()
        for t in trs:
            n = t["next"][lv]
            ps = self.seq_pieces(n) if n is not None and n.op == "cat" else []
            if len(ps) == 2 and ps[0].op == "sl" and ps[0].args[0] is lv and ps[1].op in ("el", "sl") and pure(ps[1]):
                apps.add(ps[1])
            else:
                apps.add(None)
        if len(apps) == 1 and None not in apps:
            p = next(iter(apps))
            if p.op == "el":
                body = subst(p.args[0], {k: T("bv")})
            else:
                if not (self.piece_len(p) is I(1)):
                    return None
                body = T("at", p.args[0], subst(p.args[1], {k: T("bv")}))
            # identity comprehension is a slice
            if body.op == "at" and body.args[1] is T("bv") and not has_op(body.args[0], "bv"):
                return self.seq_cat(st, init, T("sl", body.args[0], lo, hi))
            return self.seq_cat(st, init, T("comp", body, I(0), lo, hi))
        return None

    def folded(self, trs, lv, init, k, k0, step, pure):
        """every turn applies the same library function to the value and an element"""
        ns = {t["next"][lv] for t in trs}
        n = next(iter(ns)) if len(ns) == 1 else None
        if n is None or n.op != "app" or not n.args[0].endswith("'") or n.args[1] is not lv or not all(pure(x) and lv not in subterms(x) for x in n.args[2:]):
            return None
        bv = fresh_binder(n)
        return T("fold", T("app", n.args[0], T("acc"), *[subst(x, {k: bv if step == 1 else add(bv, I(1))}) for x in n.args[2:]]), init, k0, k, I(step))

    def filled(self, st, trs, lv, init, k, k0, step, pure, nosplit=False):
        """every turn writes one element right after the one written before"""
        if not trs or step != 1:
            return None
        found = None
        for t in trs:
            n = t["next"][lv]
            if n is None or n.op not in ("cat", "el", "sl"):
                return None
            ps = self.seq_pieces(n)
            mid = [p for p in ps if not (p.op == "sl" and p.args[0] is lv)]
            if len(mid) != 1 or not (mid[0].op == "el" or self.piece_len(mid[0]) is I(1)):
                return None
            at = I(0)
            for p in ps:
                if p is mid[0]:
                    break
                at = add(at, self.piece_len(p))
            if found is None or len(ps) > found[2]:
                found = mid[0], at, len(ps)
        m, at, _ = found
        v = m.args[0] if m.op == "el" else T("at", m.args[0], m.args[1])
        if lv in subterms(v) or not pure(v) or lv in subterms(at) or not pure(at):
            return None
        if sub(subst(at, {k: add(k, I(1))}), at) is not I(1):
            return None
        for t in trs:
            s = t["state"]
            want = self.seq_pieces(self.mkcat(s, [T("sl", lv, I(0), at), m, T("sl", lv, add(at, I(1)), T("len", lv))]))
            have = self.seq_pieces(self.mkcat(s, self.seq_pieces(t["next"][lv])))
            if len(want) != len(have):
                return None
            for x, y in zip(want, have):
                if x is not y and not (x.op == y.op == "sl" and x.args[0] is y.args[0] and s.facts.entails_eq0(sub(x.args[1], y.args[1])) and s.facts.entails_eq0(sub(x.args[2], y.args[2]))):
                    return None
        body = subst(v, {k: T("bv")})
        if body.op == "at" and body.args[1] is T("bv") and not has_op(body.args[0], "bv"):
            mid = T("sl", body.args[0], k0, k)
        else:
            mid = T("comp", body, I(0), k0, k)
        a0 = subst(at, {k: k0})
        try:
            return self.seq_cat(st, self.seq_slice(st, init, I(0), a0), mid, self.seq_slice(st, init, at, self.seq_len(init)))
        except Split:
            if nosplit:
                return None
            raise

    def projected(self, trs, lv, pure, k):
        common = set(trs[0]["pc"])
        for t in trs[1:]:
            common &= set(t["pc"])
        rows, dropped = {}, False
        for t in trs:
            pc = tuple(c for c in t["pc"] if c not in common)
            keep = tuple(c for c in pc if pure(c))
            if len(keep) != len(pc):
                dropped = True
            key = (keep, t["next"][lv])
            if key not in rows:
                rows[key] = dict(t, pc=keep)
        rows = list(rows.values())
        # a condition and its negation that lead to the same do not matter
        again = dropped
        while again:
            again = False
            for i, t in enumerate(rows):
                for j in range(i + 1, len(rows)):
                    u = rows[j]
                    if t["next"][lv] is not u["next"][lv]:
                        continue
                    a, b = set(t["pc"]), set(u["pc"])
                    if a <= b or b <= a:
                        rows = [x for n, x in enumerate(rows) if n not in (i, j)] + [t if a <= b else u]
                        again = True
                        break
                    d, e = a - b, b - a
                    if len(d) == 1 and len(e) == 1 and neg(next(iter(d))) is next(iter(e)):
                        rows = [x for n, x in enumerate(rows) if n not in (i, j)] + [dict(t, pc=tuple(c for c in t["pc"] if c in b))]
                        again = True
                        break
                if again:
                    break
        if dropped:
            for i, t in enumerate(rows):
                for u in rows[i + 1:]:
                    if t["next"][lv] is not u["next"][lv] and not any(neg(c) in u["pc"] for c in t["pc"]):
                        # not determined by the index: whatever depends on the conditions dropped is unknown
                        return trs
        return rows

    def comprehension(self, st, trs, lv, init, k, lo, hi, pure):
        """what is appended to a sequence as a function of the index: comp, filt or flat"""
        rows = []
        for t in trs:
            n = t["next"][lv]
            if n is lv:
                rows.append((t, None))
                continue
            ps = self.seq_pieces(n) if n.op == "cat" else []
            if len(ps) < 2 or ps[0].op != "sl" or ps[0].args[0] is not lv or ps[0].args[1] is not I(0) or not all(pure(p) for p in ps[1:]):
                return None
            if not self._eq(t["state"], ps[0].args[2], T("len", lv)):
                return None
            rows.append((t, ps[1:]))
        one = all(r is None or (len(r) == 1 and (r[0].op == "el" or self.piece_len(r[0]) is I(1))) for _, r in rows)
        if all(r is None for _, r in rows):
            return None
        if not one:
            bodies = [self.mkcat(None, r) if r is not None else None for _, r in rows]
            if len(rows) == 1:
                bv = fresh_binder(bodies[0])
                return self.seq_cat(st, init, T("flat", subst(bodies[0], {k: bv}), lo, hi))
            pcs = [list(t["pc"]) for t, _ in rows]
            if not all(pure(c) for cs in pcs for c in cs):
                return None
            bv = fresh_binder(*[b for b in bodies if b is not None], *[c for cs in pcs for c in cs])
            flat = []
            for b, cs in sorted(((b, cs) for b, cs in zip(bodies, pcs) if b is not None), key=lambda x: x[0]):
                c = TRUE
                for x in sorted(subst(x, {k: bv}) for x in cs):
                    c = conj(c, x)
                flat += [c, subst(b, {k: bv})]
            return self.seq_cat(st, init, T("flat", T("cases", *flat), lo, hi))
        vals = []
        for t, r in rows:
            if r is None:
                vals.append(None)
            else:
                vals.append(r[0].args[0] if r[0].op == "el" else T("at", r[0].args[0], r[0].args[1]))
        if None not in vals and len(set(vals)) == 1:
            return None
        pcs = [list(t["pc"]) for t, _ in rows]
        if not all(pure(c) for cs in pcs for c in cs):
            return None
        bv = fresh_binder(*[v for v in vals if v is not None], *[c for cs in pcs for c in cs])
        table = {}
        for v, cs in zip(vals, pcs):
            c = TRUE
            for x in sorted(subst(x, {k: bv}) for x in cs):
                c = conj(c, x)
            if v is not None:
                v = subst(v, {k: bv})
                table[v] = disj(table[v], c) if v in table else c
        pairs = sorted((c, v) for v, c in table.items())
        flat = [x for p in pairs for x in p]
        if None in vals:
            return self.seq_cat(st, init, T("filt", T("cases", *flat), lo, hi))
        return self.seq_cat(st, init, T("comp", T("cases", *flat), I(0), lo, hi))

    def is_step_cond(self, c, k):
        """the condition that the iteration goes on: k < end"""
        return c.op == "le0" and k in parts(c.args[0])[1]

    def lam(self, pc, k):
        cs = [subst(c, {k: T("bv")}) for c in pc]
        r = TRUE
        for c in sorted(cs):
            r = conj(r, c)
        return r


def binders(ts):
    n = -1
    for t in ts:
        for x in subterms(t):
            if x.op == "bv":
                n = max(n, x.args[0] if x.args else 0)
    return n


def fresh_binder(*ts):
    n = binders(ts) + 1
    return T("bv", n) if n else T("bv")


def binder(c):
    """the variable a comprehension binds: the outermost of its body"""
    n = binders([c.args[0]])
    return T("bv", n) if n > 0 else T("bv")


# terms rebuilt by substitution are brought back to normal form
def _relen(s):
    if s.op in ("cat", "nil", "sl", "str", "bytes", "rep", "comp", "rev", "split", "matches", "derefs"):
        return Interp.seq_len(_I, s)
    return None


def _reat(s, k):
    if s.op == "sl":
        return T("at", s.args[0], add(s.args[1], k))
    if s.op == "split":
        return Interp.base_at(_I, None, s, k)
    return None


_I = object.__new__(Interp)
_I.term_ty, _I.types = {}, []
REBUILD["len"] = _relen
REBUILD["at"] = _reat
