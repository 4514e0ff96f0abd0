#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds.py: applies each edit to a scratch copy of /repo, confirms that it
builds, passes the stable tests and that its demo distinguishes it, and records whether its check reports it.
usage: mkseeds.py [--check-only] [id...]"""
import json, os, shutil, subprocess, sys, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
spec = importlib.util.spec_from_file_location("seeds", os.path.join(here, "seeds.py"))
seeds = importlib.util.module_from_spec(spec); spec.loader.exec_module(seeds)
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory, in a scratch folder.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
scribe = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo build --offline -q || exit 3
%s
'''
RUN = 'mkdir "$w/run" && cd "$w/run" && timeout 60 "$w/target/debug/demo"'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh("git -C %s checkout -q -- ." % WT)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = "--check-only" in sys.argv
    if not os.path.isdir(WT):
        sh("cp -a /repo %s" % WT)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (WT, WT))
    resp = os.path.join(verif, "build", "seeds.json")
    res = json.load(open(resp)) if os.path.exists(resp) else {}
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    stable = None
    for s in seeds.SEEDS:
        if ids and s["id"] not in ids:
            continue
        reset()
        d = os.path.join(verif, "seeded", s["id"])
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(WT, f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    raise Exception("%d matches of %r" % (t.count(old), old[:60]))
                open(p, "w").write(t.replace(old, new))
        except Exception as e:
            print(s["id"], "EDIT FAILED:", e)
            continue
        diff = sh("git -C %s diff" % WT).stdout
        if not only:
            r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; echo rc=$?", cwd=WT, env=env)
            if "rc=0" not in r.stdout:
                t = open("/tmp/seed.log").read()
                import re
                print(s["id"], "TESTS FAIL:", re.findall(r"^test (.*) \.\.\. FAILED", t, re.M)[:6], re.findall(r"^error.*", t, re.M)[:4])
                continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/main.rs", "w").write(s["main"])
            open(d + "/demo.sh", "w").write(DEMO % (s.get("run", RUN)))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            bad = sh("bash %s/demo.sh" % d, cwd=WT)
            reset()
            good = sh("bash %s/demo.sh" % d, cwd=WT)
            if good.returncode != 0 or bad.returncode in (0, 3):
                print(s["id"], "DEMO: clean=%d patched=%d" % (good.returncode, bad.returncode), (good.stdout if good.returncode else bad.stdout)[-600:])
                shutil.rmtree(d)
                continue
            open(WT + "/.apply", "w").write(diff)
            sh("git -C %s apply .apply && rm %s/.apply" % (WT, WT))
        r = sh("python3 %s/check.py %s quick" % (verif, s["prop"]), env=dict(os.environ, SCRIBE_REPO=WT))
        caught = r.returncode == 1 and "VIOLATION property=" + s["prop"] in r.stdout
        others = []
        if "--all" in sys.argv:
            for p in sorted(os.listdir(verif + "/props")):
                if p.startswith("c") and p[1:3].isdigit():
                    q = p[:3].upper()
                    rr = sh("python3 %s/check.py %s quick" % (verif, q), env=dict(os.environ, SCRIBE_REPO=WT))
                    if rr.returncode == 1:
                        others.append(q)
        print(s["id"], "caught" if caught else "MISSED", others, "" if caught else r.stdout[:300].replace("\n", " | "))
        res[s["id"]] = {"caught": caught, "others": others}
        sys.stdout.flush()
        json.dump(res, open(resp, "w"), indent=1)
    reset()


main()
