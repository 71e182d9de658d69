#!/bin/bash
# check.sh ID: decides one property for /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
stale=0
[ -x bin/oapiverif ] || stale=1
if [ $stale = 0 ] && [ -n "$(find checker -newer bin/oapiverif -name '*.go' -print -quit)" ]; then stale=1; fi
if [ $stale = 1 ]; then
	(cd checker && go build -o ../bin/oapiverif .) || { echo "the checker does not build"; exit 2; }
fi
# /repo is loaded as its own go.mod says, without writing to it
export GOFLAGS="-mod=mod -buildvcs=false"
OAPI_REPO=/repo OAPI_VERIF="$PWD" exec bin/oapiverif check "$1"
