#!/usr/bin/env python3
"""Systematic small mutations of the sources: applies each to a scratch copy, keeps those that build and pass the
stable tests, and reports which of them no check notices.
usage: mutate.py <workers> <out.jsonl> [file substring...]"""
import json, os, re, shutil, subprocess, sys, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = {x for x in json.load(open("/opt/vp/BASELINE.json")).get("passed", [])} if os.path.exists("/opt/vp/BASELINE.json") else set()
SUBS = [
    (r"(?<=[\w\)\]] )<(?= [\w&*(])", ["<=", ">"]), (r"(?<=[\w\)\]] )<=(?= )", ["<"]), (r"(?<=[\w\)\]] )>(?= [\w&*(])", [">=", "<"]), (r"(?<= )>=(?= )", [">"]),
    (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]), (r"&&", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
    (r"\+ 1\b", ["+ 0", "+ 2"]), (r"- 1\b", ["- 0"]), (r"(?<=[\w\)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w\)\]] )-(?= [\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.rev\(\)", [""]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]),
    (r"\bif (?!let)([^{]+) \{", ["if true {", "if false {"]), (r"(?<=[ (])!(?=\w)", [""]), (r"\b0\b", ["1"]), (r"(?<![\w.])1\b", ["0"]),
    (r"\.start\(\)", [".end()"]), (r"\.end\(\)", [".start()"]), (r"\.line\b", [".offset"]), (r"\.offset\b", [".line"]), (r"\bmin\b", ["max"]),
    (r"graphemes\(true\)", ["graphemes(false)", "chars()"]), (r"grapheme_indices\(true\)", ["grapheme_indices(false)", "char_indices()"]), (r"\.chars\(\)", [".graphemes(true)"]),
    (r"'\\n'", ["'\\r'", "' '"]), (r"\.lines\(\)", [".split('\\n')"]), (r"\.len\(\)", [".chars().count()", ".len() + 1"]),
    (r"saturating_sub", ["wrapping_sub"]), (r"saturating_add", ["wrapping_add"]), (r"\.last\(\)", [".next()"]), (r"\.take\(\)", [".as_mut().cloned()"]),
    (r"\.enumerate\(\)", [".skip(1).enumerate()", ".enumerate().skip(1)"]), (r"\.pop\(\)", [".last().cloned()"]),
    (r"gap_start", ["gap_length"]), (r"gap_length", ["gap_start"]), (r"self\.previous", ["self.next"]), (r"self\.next\b", ["self.previous"]),
    (r"Ordering::Less", ["Ordering::Greater"]), (r"Ordering::Greater", ["Ordering::Less"]), (r"Ordering::Equal", ["Ordering::Less"]),
    (r"unwrap_or\(0\)", ["unwrap_or(1)"]), (r"first_half", ["second_half"]), (r"second_half", ["first_half"]), (r"\bNone\b", ["Default::default()"]),
    (r"Some\((\w+)\)(?=[,;\n])", ["None"]), (r"return true", ["return false"]), (r"return None", ["return Some(Default::default())"]),
    (r"\.\.\]", ["..1]"]), (r"position\.", ["self.cursor."]), (r"old_content", ["new_content"]), (r"new_content", ["old_content"]),
    (r"\bindex\b", ["0"]), (r"path\.canonicalize\(\)\?", ["path.to_path_buf()"]), (r"file_extension\(\)", ["file_name()"]),
]


def mutants(src):
    cut = src.find("#[cfg(test)]")
    body = src if cut < 0 else src[:cut]
    lines = body.splitlines(True)
    for n, line in enumerate(lines):
        t = line.strip()
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("pub use") or t.startswith("#[") or t.startswith("mod "):
            continue
        sig = re.match(r"(pub(\(\w+\))? )?(fn|struct|enum|trait|impl|type)\b", t)
        if not sig:
            for pat, reps in SUBS:
                for m in re.finditer(pat, line):
                    for r in reps:
                        yield n, line[:m.start()] + r + line[m.end():]
        if not sig and t.endswith(";") and not t.startswith(("let ", "return", "}", ")", ".")):
            yield n, "\n"
            # early exit of the statement's block
        if not sig and re.match(r"^[\w.]+\([^()]*\)$", t):
            yield n, "\n"


def stmts(src):
    """whole multi-line statements removed"""
    cut = src.find("#[cfg(test)]")
    body = src if cut < 0 else src[:cut]
    lines = body.splitlines(True)
    for n, line in enumerate(lines):
        t = line.strip()
        ind = len(line) - len(line.lstrip())
        if ind < 8 or t.startswith("//") or t.endswith(";") or not t or t.startswith(("}", ")", ".", "let ", "else")):
            continue
        m = n + 1
        while m < len(lines) and (not lines[m].strip() or len(lines[m]) - len(lines[m].lstrip()) > ind):
            m += 1
        if m < len(lines) and len(lines[m]) - len(lines[m].lstrip()) == ind and (lines[m].strip() in ("}", "};", ");") or lines[m].strip().endswith(";")):
            yield n, m + 1


def main():
    workers, out = int(sys.argv[1]), sys.argv[2]
    only = sys.argv[3:]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = queue.Queue()
    for root, _, files in os.walk("/repo/src"):
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, "/repo")
            if not f.endswith(".rs") or only and not any(o in rel for o in only):
                continue
            src = open(p).read()
            lines = src.splitlines(True)
            seen = set()
            k = 0
            for n, new in mutants(src):
                ls = list(lines)
                ls[n] = new
                s = "".join(ls)
                if s != src and s not in seen:
                    seen.add(s)
                    todo.put(("%s:%d:%d" % (rel, n + 1, k), rel, s, lines[n].strip() + "  =>  " + new.strip()))
                    k += 1
            for a, b in stmts(src):
                s = "".join(lines[:a] + lines[b:])
                if s not in seen:
                    seen.add(s)
                    todo.put(("%s:%d:%d" % (rel, a + 1, k), rel, s, "remove " + " ".join(x.strip() for x in lines[a:b])[:120]))
                    k += 1
    print(todo.qsize(), "mutants")
    lock = threading.Lock()

    def work(w):
        base = "/tmp/mw/%d" % w
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
        os.makedirs(base + "/verif")
        for d in ("absint", "props", "driver", "check.py", "known_findings.json"):
            subprocess.run(["cp", "-a", os.path.join(VERIF, d), base + "/verif/"], check=True)
        os.makedirs(base + "/verif/build/target")
        os.makedirs(base + "/verif/evidence")
        subprocess.run(["cp", "-a", os.path.join(VERIF, "build/driver"), base + "/verif/build/"], check=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_BUILD_JOBS="2")
        cenv = dict(os.environ, SCRIBE_REPO=base + "/repo", CARGO_BUILD_JOBS="2")
        while True:
            try:
                mid, rel, s, what = todo.get_nowait()
            except queue.Empty:
                break
            if mid in done:
                continue
            p = base + "/repo/" + rel
            orig = open("/repo/" + rel).read()
            open(p, "w").write(s)
            res = {"id": mid, "what": what}
            try:
                r = subprocess.run(["cargo", "check", "--offline", "--lib"], cwd=base + "/repo", env=env, capture_output=True, text=True, timeout=200)
                if r.returncode:
                    res["r"] = "nocompile"
                else:
                    try:
                        if os.path.exists(base + "/repo/my_doc"):
                            os.remove(base + "/repo/my_doc")
                        # the unit tests of the library; documentation tests only for what passes them
                        r = subprocess.run(["timeout", "100", "cargo", "test", "--offline", "--lib", "--", "--test-threads", "2"], cwd=base + "/repo", env=env, capture_output=True, text=True)
                        if r.returncode == 0:
                            r = subprocess.run(["timeout", "200", "cargo", "test", "--offline", "--no-fail-fast", "--", "--test-threads", "2"], cwd=base + "/repo", env=env, capture_output=True, text=True)
                    except subprocess.TimeoutExpired:
                        r = None
                    if r is None or r.returncode:
                        res["r"] = "killed"
                    else:
                        caught, und, err = [], [], []
                        for i in range(1, 27):
                            c = "C%02d" % i
                            q = subprocess.run(["timeout", "300", "python3", base + "/verif/check.py", c], env=cenv, capture_output=True, text=True)
                            if q.returncode == 1:
                                caught.append(c)
                            elif q.returncode:
                                err.append(c)
                            if "\n  undecided" in q.stdout:
                                und.append(c)
                        res.update(r="caught" if caught else "MISSED", by=caught, und=und, err=err)
            finally:
                open(p, "w").write(orig)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(res) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done")


main()
