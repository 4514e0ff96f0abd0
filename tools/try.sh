#!/bin/bash
# try.sh <patch> <check>... : runs checks against /repo with a patch applied, then undoes it
p=$(realpath "$1"); shift
cd "$(dirname "$0")/.." || exit 2
git -C /repo apply "$p" || exit 3
for c in "$@"; do python3 check.py $c 2>&1 | grep -v '^  ' | tail -4 | cut -c1-400; done
git -C /repo checkout -q -- .
