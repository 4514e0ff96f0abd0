#!/bin/bash
# Runs every check (in parallel) and prints one summary line for each.
cd "$(dirname "$0")/.." || exit 2
ls props | grep -o '^c[0-9][0-9]' | tr a-z A-Z | xargs -P 6 -I{} bash -c 's=$(date +%s); o=$(VERIF_TIER=${T:-quick} python3 check.py {} 2>&1); r=$?; echo "{} rc=$r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-150) U=$(echo "$o" | grep -c "^  undecided\|UNDECIDED")"' | sort
