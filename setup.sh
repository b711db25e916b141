#!/bin/bash
# Builds the engine (offline) and warms the build cache with the repository's packages.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine" && go build -mod=vendor -o "$here/bin/vsym" .
