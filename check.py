#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of the crate in /repo from its source."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from absint import build
from absint.ctx import load
from props.common import Obs
from absint.interp import Budget

TRUSTED = [
    "rustc 1.101.0-nightly's MIR construction, type checking and trait resolution (driver/ reads its tables)",
    "the abstract interpreter absint/ and its linear-inequality domain (Fourier-Motzkin with integer tightening)",
    "the models of std, unicode-segmentation and syntect functions in absint/models.py",
]


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["key"]: k for k in d.get("known", []) if k["property"] == prop}


TIME = 420  # seconds after which what is left is reported as undecided


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        path, dig = build.dump()
    except build.BuildError as e:
        print("ERROR: cannot analyse the source: %s" % e)
        return 2
    ctx = load(path)
    mod = importlib.import_module("props." + prop.lower())
    obs = Obs(prop)


    def late(*_):
        raise Budget("out of time")

    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, TIME, 5)
    try:
        mod.check(ctx, obs, tier)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except (Budget,) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        obs.dunno("analysis", prop, "analysis gave up: %s" % e)
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        obs.dunno("analysis", prop, "analysis failed: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    kn = known(prop)
    seen, new, hits = set(), [], set()
    for key, where, msg, path_ in obs.violations:
        if key in kn:
            hits.add(key)
        elif (key, where) not in seen:
            seen.add((key, where))
            new.append((key, where, msg, path_))
    for key in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[key]["what"]))
    ob = len(obs.proved) + len(obs.violations) + len(obs.undecided)
    cov = {
        "obligations": ob,
        "discharged": len(obs.proved),
        "undecided": len(obs.undecided),
        "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "functions_analysed": len(obs.fns),
        "functions": sorted(f for f in obs.fns)[:120],
        "abstract_paths": obs.paths,
        "basic_blocks_interpreted": obs.blocks,
        "loops_solved": obs.loops,
        "rules": rules(obs),
        "undecided_samples": ["%s: %s: %s" % u for u in obs.undecided][:20],
        "source_digest": dig,
        "explanation": (mod.__doc__ or "").strip(),
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(mod, "LEVEL", "other"),
        "coverage": cov,
        "assumptions": sorted(obs.assumed) + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["functions"] = cov["functions"][:30]
        cov["undecided_samples"] = [u[:300] for u in cov["undecided_samples"]]
        s = json.dumps(ev, indent=1)
    open(os.path.join(VERIF, "evidence", prop + ".json"), "w").write(s + "\n")
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d abstract paths, %.1f s" % (prop, ob, len(obs.proved), len(obs.undecided), len(obs.violations), len(obs.fns), obs.paths, time.time() - t0))
    for u in obs.undecided[:8]:
        print("  undecided: %s: %s: %s" % (u[0], u[1], u[2][:400]))
    if not new:
        return 0
    rep = os.path.join(VERIF, "build", "violation-%s.txt" % prop)
    with open(rep, "w") as f:
        for key, where, msg, path_ in new:
            f.write("property: %s\nrule: %s\nat: %s\nviolation: %s\npath: %s\n\n" % (prop, key, where, msg, path_))
    for key, where, msg, path_ in new[:6]:
        print("  violated: [%s] at %s: %s" % (key, where, msg[:700]))
        if path_:
            print("     on the path: %s" % path_[:500])
    print("VIOLATION property=%s replay=%s" % (prop, rep))
    return 1


def rules(obs):
    r = {}
    for rule, where, _ in obs.proved:
        r[rule] = r.get(rule, 0) + 1
    return r


if __name__ == "__main__":
    sys.exit(main())
