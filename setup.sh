#!/bin/bash
# Builds the harness once, which fills the Go build cache.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
./build.sh "$t/zverif.test"
