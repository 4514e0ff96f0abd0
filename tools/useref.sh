#!/bin/bash
# useref.sh <name>: applies a behaviour-preserving edit to /repo (undo with git checkout)
cd "$(dirname "$0")" || exit 2
python3 -B - "$1" <<'P'
import sys
sys.path.insert(0, ".")
import refs, refapply
for n, e in refs.REFS:
    if n == sys.argv[1]:
        for p, a, b in e:
            r = refapply.apply("/repo/" + p, a, b)
            if r:
                print(r)
P
