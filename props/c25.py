"""Every path of every public function that ends in a panic is looked for: index and slice bounds, unwrapped results,
subtractions, explicit panics and borrows. The functions are interpreted on arbitrary arguments in the states their
types' invariants allow (the text store's and the workspace's invariants are the ones C10 and C19 show to be kept); what
the other properties' analyses say about panics is taken over, and every public function they do not reach is
interpreted here."""
from .cur import *
from . import ws
import importlib

ASSUMPTIONS = ["numbers fit in memory: additions do not overflow", "syntect's functions do not panic"]
FROM = ["c01", "c02", "c03", "c04", "c05", "c08", "c09", "c10", "c12", "c14", "c15", "c16", "c17", "c18", "c19", "c21", "c22", "c23", "c24", "c26"]
RULES = ("no-panic", "panics")


class Sub(Obs):
    """keeps what an analysis says about panics"""

    def decide(self, verdict, rule, where, msg, path="", key=None):
        if rule in RULES:
            return super().decide(verdict, rule, where, msg, path, key)
        return verdict

    def ok(self, rule, where, detail=""):
        if rule in RULES:
            super().ok(rule, where, detail)

    def bad(self, key, where, msg, path=""):
        if key.startswith("panic@") or key == "panic":
            super().bad(key, where, msg, path)

    def dunno(self, rule, where, why):
        if rule in RULES:
            super().dunno(rule, where, why)


class Slices(Sub):
    """keeps what C13 says about slicing texts, which panics inside a character"""
    KEEP = ("text-slice",)

    def decide(self, verdict, rule, where, msg, path="", key=None):
        if rule in self.KEEP:
            return Obs.decide(self, verdict, rule, where, msg, path, key)
        return verdict

    def ok(self, rule, where, detail=""):
        if rule in self.KEEP:
            Obs.ok(self, rule, where, detail)

    def bad(self, key, where, msg, path=""):
        Obs.bad(self, key, where, msg, path)

    def dunno(self, rule, where, why):
        if rule in self.KEEP:
            Obs.dunno(self, rule, where, why)


def check(ctx, obs, tier):
    for name in FROM:
        try:
            mod = importlib.import_module("props." + name)
        except ModuleNotFoundError:
            continue
        s = Sub(obs.prop)
        try:
            mod.check(ctx, s, tier)
        except Budget as e:
            obs.dunno("no-panic", name.upper(), "analysis gave up: %s" % e)
        except Exception as e:
            obs.dunno("no-panic", name.upper(), "analysis failed: %s" % e)
        take(obs, s)
    s = Slices(obs.prop)
    importlib.import_module("props.c13").check(ctx, s, tier)
    take(obs, s)
    done = {w.split(" ")[0] if not w.startswith("<") else w[:w.rindex(" (")] for _, w, _ in obs.proved} | {w[:w.rindex(" (")] for _, w, _, _ in obs.violations if " (" in w}
    for f in ctx.local:
        if not f.get("root") or canon(f["name"]) in done or where(f)[:where(f).rindex(" (")] in done:
            continue
        if not (f.get("reachable") or f.get("pub")) or derived(f):
            continue
        alone(ctx, obs, f)


def take(obs, s):
    have = {(r, w) for r, w, _ in obs.proved}
    for p in s.proved:
        if (p[0], p[1]) not in have:
            obs.proved.append(p)
    seen = {(k, w) for k, w, _, _ in obs.violations}
    for k, w, m, p in s.violations:
        if (k, w) not in seen:
            obs.violations.append((k, w, m, p))
    obs.undecided += [u for u in s.undecided if u not in obs.undecided]
    obs.fns |= s.fns
    obs.paths += s.paths
    obs.loops += s.loops
    obs.blocks += s.blocks
    obs.assumed |= s.assumed
    obs.anchors += s.anchors


def derived(f):
    n = canon(f["name"])
    return "errors::" in n or (f.get("impl_trait") or "").split("<")[0] in ("std::fmt::Debug",)


def invariant(ctx, f):
    """a type that keeps its fields to itself may never be in the state in which a function of it panics"""
    t = f.get("impl_self")
    t = ctx.types[t] if t is not None else {}
    return t.get("k") == "adt" and t.get("local") and any(not x[2] for v in t.get("variants", ()) for x in v["fields"]) and t["path"].split("::")[-1] not in ("Buffer", "Workspace")


def alone(ctx, obs, f):
    t = ctx.self_path(f).split("::")[-1]
    try:
        if t == "Buffer":
            I, st0, a, outs = run_buffer(ctx, obs, f)
            no_panic(obs, f, outs)
        elif t == "Workspace":
            for empty in (False, True):
                I, st0, a, outs, s = ws.run(ctx, obs, f, empty)
                no_panic(obs, f, outs)
        else:
            I, st0, a, outs = analyse(ctx, obs, f, world(ctx))
            if invariant(ctx, f):
                for o in outs:
                    if o[0] == "panic":
                        o[1].imprecise("the states of this type are not known")
            no_panic(obs, f, outs)
    except Budget as e:
        obs.dunno("no-panic", where(f), "analysis gave up: %s" % e)
