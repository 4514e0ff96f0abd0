"""Build the MIR dumper when needed and dump the MIR of /repo's current source."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import time
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCRIBE_REPO", "/repo")
OUT = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def env(extra=None):
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e.pop("RUSTFLAGS", None)
    e.update(extra or {})
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sources(repo):
    out = []
    for pat in ("Cargo.toml", "Cargo.lock", "build.rs", "src/**/*"):
        out += [p for p in glob.glob(os.path.join(repo, pat), recursive=True) if os.path.isfile(p)]
    return out


def driver():
    src = glob.glob(os.path.join(VERIF, "driver/src/*.rs")) + [os.path.join(VERIF, "driver/Cargo.toml")]
    exe = os.path.join(OUT, "driver/release/mirdump")
    stamp = exe + ".stamp"
    want = digest(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    run(["cargo", "+nightly", "build", "--offline", "--release", "--target-dir", os.path.join(OUT, "driver")], cwd=os.path.join(VERIF, "driver"), env=env())
    open(stamp, "w").write(want)
    return exe


def dump(repo=None):
    """path of the MIR dump of the sources in repo, and their digest"""
    repo = repo or REPO
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        d = digest(sources(repo) + [os.path.join(VERIF, "driver/src/main.rs")])
        out = os.path.join(OUT, "dump-%s.json" % d[:24])
        if os.path.exists(out):
            return out, d
        for old in glob.glob(os.path.join(OUT, "dump-*.json")):
            stale = len(glob.glob(os.path.join(OUT, "dump-*.json"))) > 40 and os.path.getmtime(old) < time.time() - 900
            if os.path.getmtime(old) < os.path.getmtime(exe) or stale:
                os.remove(old)
        target = os.path.join(OUT, "target")
        # the compiler must really look at the crate: forget what cargo knows about it
        for p in glob.glob(target + "/debug/build/scribe") + glob.glob(target + "/debug/.fingerprint/scribe-*") + glob.glob(target + "/debug/incremental/scribe-*"):
            shutil.rmtree(p, ignore_errors=True)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        e = env({"RUSTC_WORKSPACE_WRAPPER": exe, "MIRDUMP_OUT": tmp, "CARGO_TARGET_DIR": target})
        log = run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=repo, env=e)
        if not os.path.exists(tmp):
            raise BuildError("the compiler did not write the MIR dump:\n" + log[-2000:])
        os.rename(tmp, out)
        return out, d
