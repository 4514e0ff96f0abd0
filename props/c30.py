"""The call graph of the whole crate (calls, functions and closures passed as values, dropped values, operations called
through their trait) is built from the compiler's resolved program. Every outside call with an effect on the world (files,
standard streams, processes, threads, environment) or an input from it (files, clock, environment) is found, and
for each public function and trait implementation the call paths to such calls are compared with what its documentation
allows it."""
from .common import *
import re

ASSUMPTIONS = [
    "functions of std, syntect, error-chain, bloodhound and unicode-segmentation that are not listed as effects in props/c30.py have none",
    "a function or closure that is mentioned may be called",
]
# effect class -> names of outside functions
EFFECTS = [
    ("write", r"std::fs::(write|rename|copy|hard_link|soft_link|set_permissions|create_dir|create_dir_all|remove_\w+|File::(create|create_new|set_len|set_permissions|set_modified|set_times))$"),
    ("write", r"std::fs::OpenOptions::(write|append|create|create_new|truncate)$|std::fs::DirBuilder::create$|std::os::unix::fs::(symlink|chown|lchown|fchown)$"),
    ("write", r"syntect::.*dump_to_(file|uncompressed_file)$"),
    ("read", r"std::fs::(read|read_to_string|read_dir|read_link|metadata|symlink_metadata|canonicalize|exists|File::open|File::metadata|OpenOptions::open)$"),
    ("read", r"std::path::Path::(canonicalize|exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link)$"),
    ("read", r"syntect::.*(load_from_folder|add_from_folder|find_syntax_for_file|load_from_file|from_dump_file|from_uncompressed_dump_file|get_theme)$"),
    ("stream", r"std::io::(_print|_eprint|stdio::_print|stdio::_eprint|stdout|stderr|stdin|read_to_string)$"),
    ("process", r"std::process::(exit|abort|Command::\w+|id)$|std::thread::(spawn|sleep|park|yield_now|scope|Builder::spawn)$|std::panic::(set_hook|take_hook)$"),
    ("process", r"std::env::(set_current_dir|set_var|remove_var)$|std::net::.*(connect|bind)$"),
    ("clock", r"std::time::(SystemTime|Instant)::(now|elapsed)$"),
    ("shared", r"std::thread::(local::)?LocalKey::\w+$"),
    ("environment", r"std::env::(var|var_os|vars|vars_os|args|args_os|current_dir|temp_dir|home_dir|current_exe)$|std::thread::current$"),
]
EFFECTS = [(k, re.compile(r)) for k, r in EFFECTS]
SAY = {
    "write": "writes to the file system", "read": "reads the file system", "stream": "uses the standard streams",
    "shared": "uses state that all buffers and workspaces share",
    "process": "changes the process", "clock": "depends on the clock", "environment": "depends on the process's environment",
}
# what each public function that deals with files may do
FILES = {
    ("Buffer", "save"): {"write", "read"},
    ("Buffer", "from_file"): {"read"},
    ("Buffer", "reload"): {"read"},
    ("Workspace", "new"): {"read", "environment"},
    ("Workspace", "add_buffer"): {"read", "environment"},
    ("Workspace", "open_buffer"): {"read", "environment"},
    ("Workspace", "current_buffer_path"): {"read", "environment"},
    ("Workspace", "buffer_paths"): {"read", "environment"},
    ("Workspace", "update_current_syntax"): {"read", "environment"},
}
# the functions this version has; a new public function may do what it is made for
KNOWN = {
    "Buffer": "data default delete delete_range end_operation_group file_extension file_name from_file insert line_count modified new read redo reload replace save search start_operation_group undo",
    "Cursor": "clone deref deref_mut move_down move_left move_right move_to move_to_end_of_line move_to_first_line move_to_last_line move_to_start_of_line move_up new",
    "Workspace": "add_buffer buffer_paths close_current_buffer current_buffer_index current_buffer_path current_buffer_tokens new next_buffer open_buffer previous_buffer update_current_syntax",
    "GapBuffer": "delete fmt in_bounds insert new read",
    "TokenSet": "iter new",
}
INNER = ("Insert", "Delete", "Replace", "OperationGroup", "History", "TokenIterator", "LineIterator", "Position", "Distance", "Range", "LineRange", "Lexeme", "Token")


SHARED = re.compile(r"std::(sync::atomic::Atomic\w*|cell::(Cell|RefCell|UnsafeCell)|sync::(\w+::)*(Mutex|RwLock)|thread::(local::)?LocalKey)$|parking_lot::")


def classify(name):
    if name.startswith("static "):
        return "shared"
    for k, r in EFFECTS:
        if r.search(name):
            return k
    return None


class Graph:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fns = {f["key"]: f for f in ctx.fns}
        self.memo = {}
        self.drops = {}
        self.impls = {}
        for f in ctx.local:
            if f.get("impl_trait"):
                self.impls.setdefault((canonical(f["impl_trait"]), f["item"]), []).append(f["key"])
                if canonical(f["impl_trait"]).endswith("ops::Drop") and f.get("impl_self") is not None:
                    self.drops[ctx.types[f["impl_self"]].get("path")] = f["key"]
        self.types = {}

    def parts(self, tid):
        """function and closure types (and types with a Drop of their own) a type is made of"""
        if tid in self.types:
            return self.types[tid]
        self.types[tid] = out = []
        seen, work = set(), [tid]
        while work:
            i = work.pop()
            if i in seen or not isinstance(i, int):
                continue
            seen.add(i)
            t = self.ctx.types[i]
            if not t:
                continue
            if t["k"] in ("fndef", "closure"):
                out.append(i)
            work += [x for x in t.get("args") or [] if isinstance(x, int)]
            work += [x for x in t.get("upvars") or [] if isinstance(x, int)]
        return out

    def dropped(self, tid):
        """Drop implementations of this crate that dropping a value of the type runs"""
        seen, work, out = set(), [tid], []
        while work:
            i = work.pop()
            if i in seen or not isinstance(i, int):
                continue
            seen.add(i)
            t = self.ctx.types[i]
            if not t:
                continue
            if t["k"] == "adt" and t.get("path") in self.drops:
                out.append(self.drops[t["path"]])
            if t["k"] in ("ref", "ptr", "fndef", "fnptr"):
                continue
            work += [x for x in t.get("args") or [] if isinstance(x, int)]
            for v in t.get("variants") or []:
                work += [x[1] for x in v["fields"]]
        return out

    def edges(self, key):
        """[(callee key or None, outside name, span)]"""
        if key in self.memo:
            return self.memo[key]
        f = self.fns[key]
        out = []

        def mention(tid, sp):
            for i in self.parts(tid):
                t = self.ctx.types[i]
                inst = t.get("inst")
                if t["k"] == "fndef":
                    for n in {canonical(t.get("impl") or ""), canonical(t.get("name") or "")}:
                        if n:
                            out.append((None, n, sp))
                    if not inst and t.get("trait"):
                        for k in self.impls.get((canonical(t["trait"]), t["method"]), []):
                            out.append((k, None, sp))
                if inst in self.fns:
                    out.append((inst, None, sp))
        for body in [f] + [p for p in f.get("promoted") or [] if isinstance(p, dict)]:
            for b in body.get("blocks") or []:
                x = b["term"]
                for s in (b.get("st") or []) + [x]:
                    for tid in pointers(s):
                        w = self.mutable(tid)
                        if w:
                            out.append((None, "static " + w, s[-1] if isinstance(s, list) and isinstance(s[-1], str) else x.get("sp")))
                for s in b.get("st") or []:
                    for tid in mentioned(s):
                        mention(tid, s[-1] if isinstance(s[-1], str) else f["span"])
                if x["t"] == "call":
                    for tid in mentioned(x.get("f")):
                        mention(tid, x.get("sp"))
                    for a in x.get("args") or []:
                        for tid in mentioned(a):
                            mention(tid, x.get("sp"))
                    for tid in x.get("at") or []:
                        mention(tid, x.get("sp"))
                elif x["t"] == "drop" and not b.get("cleanup"):
                    for k in self.dropped(x.get("pt")):
                        out.append((k, None, x.get("sp")))
        self.memo[key] = out
        return out

    def mutable(self, tid):
        """the type through which a constant pointer leads to state that can change, None when there is none"""
        t = self.ctx.types[tid]
        if t and t["k"] == "ptr" and t.get("mut"):
            return t["s"]
        seen, work = set(), [tid]
        while work:
            i = work.pop()
            if i in seen or not isinstance(i, int):
                continue
            seen.add(i)
            t = self.ctx.types[i]
            if not t:
                continue
            if t["k"] == "adt":
                if SHARED.search(t.get("path", "")):
                    return t["s"]
                if t.get("local"):
                    for v in t.get("variants") or []:
                        work += [x[1] for x in v["fields"]]
            if t["k"] in ("fndef", "fnptr"):
                continue
            for k in ("args", "ty"):
                v = t.get(k)
                work += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, int) and not isinstance(x, bool)]
        return None

    def effects(self, key):
        """[(class, outside function, call path)] reachable from a function"""
        seen, work, out = {key}, [(key, ())], []
        while work:
            k, path = work.pop()
            f = self.fns[k]
            for callee, name, sp in self.edges(k):
                if name is not None:
                    c = classify(name)
                    if c:
                        out.append((c, name, path + ("%s (%s)" % (canonical(f["name"]), sp),)))
                elif callee not in seen:
                    seen.add(callee)
                    work.append((callee, path + (("%s (%s)" % (canonical(f["name"]), sp),) if f.get("local") else ())))
        return out, seen


def pointers(x):
    """types of constant pointers (statics) in a piece of the program"""
    if isinstance(x, dict):
        if x.get("o") == "k" and x.get("c") == "ptr" and isinstance(x.get("t"), int):
            yield x["t"]
        for v in x.values():
            yield from pointers(v)
    elif isinstance(x, list):
        for v in x:
            yield from pointers(v)


def mentioned(x):
    """type ids of constants and of closures built in a piece of the program"""
    if isinstance(x, dict):
        if x.get("o") == "k" and isinstance(x.get("t"), int):
            yield x["t"]
        elif x.get("k") == "closure" and isinstance(x.get("t"), int):
            yield x["t"]
        for v in x.values():
            yield from mentioned(v)
    elif isinstance(x, list):
        for v in x:
            yield from mentioned(v)


def canonical(n):
    from absint.interp import canon
    return canon(n).split("<")[0] if not n.startswith("<") else canon(n)


def entries(ctx):
    """[(function, what it may do or None when nothing is known about it)]"""
    for f in ctx.local:
        if not f.get("root"):
            continue
        tr = canonical(f.get("impl_trait") or "")
        ty = ctx.self_path(f).split("::")[-1]
        if tr.endswith("ops::Drop"):
            yield f, set()
        elif not (f.get("pub") or f.get("reachable") or tr):
            continue
        elif ty in KNOWN and not tr and f["item"] not in KNOWN[ty].split():
            yield f, None
        elif ty in KNOWN or ty in INNER:
            yield f, FILES.get((ty, f["item"]), set()) if not tr else set()


def check(ctx, obs, tier):
    g = Graph(ctx)
    n = 0
    found = set()
    for f, may in entries(ctx):
        eff, seen = g.effects(f["key"])
        obs.fns |= {g.fns[k]["name"] for k in seen if g.fns[k].get("local")}
        n += 1
        found |= {(c, name) for c, name, _ in eff}
        bad = {}
        for c, name, path in eff:
            if may is None:
                continue
            if c not in may:
                bad.setdefault((c, name, path[-1]), path)
        for (c, name, at), path in bad.items():
            obs.decide(False, "effects", where(f), "%s %s: it reaches %s at %s" % (canonical(f["name"]), SAY[c], name, at), " -> ".join(path + (name,)),
                       key="%s@%s@%s" % (c, canonical(f["name"]), name))
        if may is None and eff:
            obs.ok("effects", where(f), "a function this version does not have; what it may do is not known")
        elif not bad:
            obs.ok("effects", where(f))
        obs.paths += len(eff)
    # the analysis has to see the effects that are there
    for c, names in (("write", "save"), ("read", "reload"), ("read", "from_file")):
        fs = [f for f, may in entries(ctx) if f["item"] == names and may]
        if not fs:
            obs.dunno("anchor", names, "function not found")
        elif not any(e[0] == c for e in g.effects(fs[0]["key"])[0]):
            obs.dunno("anchor", where(fs[0]), "no file access found in %s: the list of effects may miss how it is done now" % names)
