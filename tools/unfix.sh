#!/bin/bash
# unfix.sh COMMIT ID...: undo one fix in /repo's working tree, run the checks, put it back
c=$1; shift
git -C /repo diff --quiet || { echo dirty; exit 2; }
git -C /repo diff "$c" "$c~1" -- > /tmp/unfix.patch
git -C /repo apply -3 /tmp/unfix.patch || { git -C /repo reset -q --hard; exit 2; }
git -C /repo reset -q
for id in "$@"; do /verif/check.sh $id 2>&1 | tail -${TAIL:-4} | cut -c1-700; done
git -C /repo checkout -q -- .
