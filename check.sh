#!/bin/bash
# check.sh <property> [quick|thorough]: builds the engine and decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOSUMDB=off GONOSUMDB='*'
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift 2
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/engine" && go build -mod=vendor -o "$here/bin/vsym" .) || { echo "engine build failed"; exit 2; }
exec "$here/bin/vsym" -verif "$here" -prop "$prop" -tier "$tier" "$@"
