#!/bin/bash
# Runs the demonstration beside this file against the tree in the working
# directory. The first line of demo_test.go names the package it belongs to.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOROOT=/opt/veriftools/go1.23.12 GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"
pkg=$(head -1 "$here/demo_test.go" | sed 's/^\/\/ //')
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$root" "$pkg" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" -run '^TestDemo' "./$pkg"
