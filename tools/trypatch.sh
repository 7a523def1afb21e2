#!/bin/bash
# tools/trypatch.sh PATCH PROP...: apply a patch in the working tree, run checks, restore
c=$1; shift
git -C /repo apply $c || exit 9
for p in "$@"; do ./run.py $p --no-evidence | tail -${LINES_:-3}; done
git -C /repo checkout -q -- .
