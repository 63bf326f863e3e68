#!/bin/bash
# usage: build.sh OUT: builds the property-test binary from /repo's working tree.
set -u
out=${1:?}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOROOT=/opt/veriftools/go1.23.12 GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"
repo=${VERIF_REPO:-/repo}  # another tree is for developing the checks only
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/go.mod" && cp "$repo/go.sum" "$tmp/go.sum" || exit 2
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/harness/*.go; do
    printf '%s"%s/zverif/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
cd "$repo" || exit 2
go test -c -vet=off -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -o "$out" ./zverif || exit 2
