#!/bin/bash
# ref.sh <name>: saves /repo's working-tree change as refactor/<name>.diff (behaviour-preserving edit used against false alarms) and undoes it
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff > refactor/$1.diff; git -C /repo checkout -q -- .; wc -l refactor/$1.diff
