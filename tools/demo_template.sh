#!/bin/bash
# Runs the demonstration test beside this file inside package PKG of the current directory (an overlay, nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
pkg=@PKG@
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$pkg" "$here" > "$tmp/overlay.json"
timeout 240 go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' "./$pkg"
