#!/bin/bash
# usage: with_base.sh COMMIT PROP...   runs checks with /repo's sources as of COMMIT (developer tool)
c=$1; shift
git -C /repo checkout -q "$c" -- src || exit 1
for p in "$@"; do echo "== $p @ $c"; /verif/check.sh "$p" 2>&1 | cut -c1-${COLS:-700}; done
git -C /repo checkout -q HEAD -- src
git -C /repo status --short
