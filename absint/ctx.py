"""Entry points: load a dump, find functions, run them on arbitrary inputs."""
import json
from .terms import *
from .interp import Interp, State, canon, Split, Budget
from . import models


class Ctx:
    def __init__(self, dump):
        self.dump = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.local = [f for f in self.fns if f["local"]]
        self.by_name = {}
        for f in self.local:
            self.by_name.setdefault(canon(f["name"]), []).append(f)

    def interp(self, prims=None, **kw):
        return Interp(self.dump, prims, models, **kw)

    def fn(self, name):
        """a local function by (suffix of) path; None when there is none"""
        c = [f for n, fs in self.by_name.items() for f in fs if n == name or n.endswith("::" + name)]
        roots = [f for f in c if f.get("root")]
        if len(roots) > 1:
            ex = [f for f in roots if canon(f["name"]) == name]
            roots = ex or roots
        if roots:
            return roots[0]
        return c[0] if c else None

    def self_path(self, f):
        t = f.get("impl_self")
        return self.types[t].get("path", "") if t is not None else ""

    def method(self, typ, name, trait=None):
        """method of a type (by type name), wherever its impl block is"""
        for root in (True, False):
            for f in self.local:
                if bool(f.get("root")) is root and f.get("item") == name and self.self_path(f).split("::")[-1] == typ:
                    tr = f.get("impl_trait")
                    if (trait is None and tr is None) or (trait and tr and tr.split("<")[0].split("::")[-1] == trait):
                        return f
        return None

    def methods(self, typ, trait=None):
        return [f for f in self.local if f.get("root") and self.self_path(f).split("::")[-1] == typ and (trait is None or (f.get("impl_trait") or "").split("<")[0].split("::")[-1] == trait)]

    def ty(self, s):
        for i, t in enumerate(self.types):
            if t and t["s"] == s:
                return i
        return None

    def adt(self, suffix):
        for i, t in enumerate(self.types):
            if t and t["k"] == "adt" and t.get("local") and (t["path"] == suffix or t["path"].endswith("::" + suffix)):
                return i
        return None

    # -- where things are stored: fields are found by type, so that renaming them is harmless

    def fields(self, tid):
        return self.types[tid]["variants"][0]["fields"]

    def field_by(self, tid, pred):
        c = [i for i, (n, ft, _) in enumerate(self.fields(tid)) if ft is not None and pred(n, self.types[ft])]
        return c

    def layout_buffer(self):
        if hasattr(self, "_lb"):
            return self._lb
        self._lb = None
        tid = self.adt("buffer::Buffer")
        if tid is None:
            return None
        want = {
            "data": lambda t: "GapBuffer" in t["s"] and t.get("path") == "std::rc::Rc",
            "cursor": lambda t: t.get("path", "").endswith("cursor::Cursor"),
            "history": lambda t: t.get("path", "").endswith("History"),
            "group": lambda t: t.get("path") == "std::option::Option" and "OperationGroup" in t["s"],
            "id": lambda t: t["s"] == "std::option::Option<usize>",
            "path": lambda t: t["s"] == "std::option::Option<std::path::PathBuf>",
            "syntax": lambda t: t.get("path") == "std::option::Option" and "SyntaxReference" in t["s"],
            "callback": lambda t: t.get("path") == "std::option::Option" and "dyn" in t["s"],
        }
        r = {"tid": tid}
        for k, p in want.items():
            c = self.field_by(tid, lambda n, t: p(t))
            if len(c) > 1:
                c = [i for i in c if self.fields(tid)[i][0] == k] or c
            if not c:
                return None
            r[k] = c[0]
        self._lb = r
        return r

    def layout_cursor(self):
        tid = self.adt("cursor::Cursor")
        r = {"tid": tid}
        for k, p in {"data": lambda t: t.get("path") == "std::rc::Rc", "position": lambda t: t.get("path", "").endswith("Position"), "sticky": lambda t: t["s"] == "usize"}.items():
            c = self.field_by(tid, lambda n, t: p(t))
            r[k] = c[0] if c else None
        return r

    def layout_history(self):
        tid = self.adt("History")
        fs = self.fields(tid)
        r = {"tid": tid}
        vecs = []
        for i, (n, ft, _) in enumerate(fs):
            t = self.types[ft]
            if t.get("path") == "std::vec::Vec":
                vecs.append(i)
            elif t["s"] == "std::option::Option<usize>":
                r["mark"] = i
        if len(vecs) != 2:
            return r
        redo = [i for i in vecs if any(w in fs[i][0] for w in ("next", "redo", "undone", "future"))]
        undo = [i for i in vecs if i not in redo and any(w in fs[i][0] for w in ("prev", "undo", "done", "past", "applied"))]
        if len(redo) != 1 or len(undo) != 1:
            undo = self.recorded_in(tid, vecs)
            if undo is None:
                return r
            redo = [i for i in vecs if i not in undo]
        r["previous"], r["next"] = undo[0], redo[0]
        return r

    def recorded_in(self, tid, vecs):
        """the sequence of a history that a new operation is put in"""
        name = self.types[tid]["path"].split("::")[-1]
        for f in self.local:
            if not f.get("root") or self.self_path(f).split("::")[-1] != name or f["argc"] != 2 or self.types[f["locals"][2][0]].get("path") != "std::boxed::Box":
                continue
            I, st0, a, outs = self.run(f)
            for o in outs:
                if o[0] != "ret":
                    continue
                v = I.force(o[1], I.val(o[1], a[0]))
                fs = [I.project(o[1], v, ("f", k)) for k in vecs]
                got = [k for k, x in zip(vecs, fs) if any(y is a[1] for y in subterms(x))]
                if len(got) == 1:
                    return got
        return None

    def run(self, f, I=None, prims=None, over=None, setup=None, args=None):
        """run a function on arbitrary arguments: (interp, entry state, args, outcomes)"""
        I = I or self.interp(prims)
        st = State()
        a = []
        for i in range(f["argc"]):
            tid, name = f["locals"][i + 1]
            nm = name or "arg%d" % (i + 1)
            if args and nm in args:
                a.append(args[nm])
            else:
                a.append(I.sym(st, tid, nm, over))
        if setup:
            setup(I, st, a)
        st0 = st.copy()
        outs = I.run_body(st, f, a)
        return I, st0, a, outs


def load(path):
    return Ctx(json.load(open(path)))
