#!/bin/bash
# Warms the Go build cache by building the simulator once; everything it makes besides the cache is removed again.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-dst.XXXXXX") || exit 3
trap '[ -n "$tmp" ] && rm -rf "$tmp"' EXIT
bash "$here/build.sh" "$tmp" race
