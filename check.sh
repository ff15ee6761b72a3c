#!/bin/bash
# usage: check.sh CXX     rebuild the checker against /repo's working tree and decide one property
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local GOPROXY=off
export GOCACHE="$here/bin/gocache"
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
mkdir -p "$here/bin" "$here/evidence" "$here/out"
cd "$here/mc" || exit 2
# C20 alone knows the shape of the exported trees: the others are built without it
bin=mc tags=none
[ "$1" = C20 ] && bin=mctrees tags=trees
if ! go build -tags "$tags" -o "$here/bin/$bin" . ; then
	echo "check.sh: the checker does not build against $VERIF_REPO" >&2
	exit 2
fi
if [ "$1" = build ]; then
	go build -tags trees -o "$here/bin/mctrees" .
	exit
fi
cd "$here" && exec "$here/bin/$bin" run "$1"
