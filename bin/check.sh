#!/bin/bash
# check.sh <property> [quick|thorough]
# Decides one property for /repo's current tree: the deductive verifier on the contracts of the
# property, and the bounded stand-ins / concrete search on the real code.
P=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
cd "$(dirname "$0")/.." || exit 2
export VERIF=$PWD
. bin/env.sh
(cd gvc && GOFLAGS=-mod=mod go build -o "$SCR/bin/gvc" .) >"$SCR/build.log" 2>&1 || { cat "$SCR/build.log"; echo "cannot build gvc"; exit 2; }
prepare >"$SCR/prepare.log" 2>&1 || { cat "$SCR/prepare.log"; echo "cannot prepare the tree"; exit 2; }
python3 bin/check.py "$P" "$TIER"
rc=$?
exit $rc
