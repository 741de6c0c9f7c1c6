#!/bin/bash
# dev/mut.sh <patch> <prop>... : run checks against a scratch copy with a patch applied (development aid)
set -e
P=$(readlink -f $1); shift
D=$(mktemp -d /tmp/mrepo.XXXX)
trap 'rm -rf "$D"' EXIT
(cd /repo && git archive HEAD) | tar x -C $D
(cd $D && git init -q && git apply $P)
for p in "$@"; do CMA_REPO=$D CMA_EVID=$D/ev timeout 900 python3 $(dirname $0)/../check.py $p quick | tail -4 | cut -c1-400; done
