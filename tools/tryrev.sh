#!/bin/bash
# tools/tryrev.sh COMMIT PROP...: undo one fix commit in the working tree, run checks, restore
c=$1; shift
git -C /repo show $c | git -C /repo apply -R || exit 9
for p in "$@"; do ./run.py $p --no-evidence | tail -${LINES_:-3}; done
git -C /repo checkout -q -- .
