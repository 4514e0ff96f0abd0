#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, used to look for false alarms: applies each one to a scratch copy, confirms that
it builds and passes the stable tests (--test), runs every check on it and reports what is not quiet.
usage: mkrefs.py [--test] [name...]"""
import importlib.util, os, subprocess, sys, json, shutil
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
import refapply
spec = importlib.util.spec_from_file_location("refs", os.path.join(here, "refs.py"))
refs = importlib.util.module_from_spec(spec); spec.loader.exec_module(refs)
args = sys.argv[1:]
test = "--test" in args
names = [a for a in args if not a.startswith("--")]
for name, edits in refs.REFS:
    if names and name not in names:
        continue
    bad = None
    try:
        for path, old, new in edits:
            bad = refapply.apply(os.environ.get("SCRIBE_REPO", "/repo") + "/" + path, old, new)
            if bad:
                break
        if bad:
            print(name, "BAD EDIT", bad)
            continue
        if test:
            if os.path.exists("/tmp/o.json"):
                os.remove("/tmp/o.json")
            r = subprocess.run("bash /opt/vp/build.sh >/tmp/o.txt 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/tmp/o.txt 2>&1; echo $?", shell=True, capture_output=True, text=True)
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = open("/tmp/o.json").read() if os.path.exists("/tmp/o.json") else "{}"
            try:
                d = json.loads(res)
                failed = d.get("failed") or [k for k, v in d.items() if v == "fail"]
            except Exception:
                failed = ["?"]
            print(name, "tests", r.stdout.strip(), "failed:", failed[:3] if isinstance(failed, list) else failed)
        o = subprocess.run([os.path.join(here, "all.sh")], capture_output=True, text=True, cwd=verif).stdout
        loud = [l for l in o.splitlines() if "rc=0" not in l]
        und = [l.split()[0] + ":" + l.rsplit("U=", 1)[1] for l in o.splitlines() if "rc=0" in l and not l.endswith("U=0")]
        print(name, "LOUD" if loud else "quiet", "undecided:", " ".join(und))
        for l in loud:
            print("   ", l[:200])
    finally:
        subprocess.run(["git", "-C", os.environ.get("SCRIBE_REPO", "/repo"), "checkout", "-q", "--", "."])
