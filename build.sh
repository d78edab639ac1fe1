#!/bin/bash
# build.sh DIR [race]: instruments /repo's working tree and builds the simulator into DIR/dst (and DIR/dst-race).
# Nothing outside DIR and the Go build cache is written.
set -u
here=$(cd "$(dirname "$0")" && pwd)
dir=$1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
cp -r "$here/sim" "$dir/sim" || exit 3
mkdir -p "$dir/inst"; cd "$dir/sim" || exit 3
go run ./instr -out "$dir/inst" -overlay "$dir/ov.json" >"$dir/instr.log" 2>&1 || { cat "$dir/instr.log"; echo "harness: instrumentation failed"; exit 3; }
go build -overlay "$dir/ov.json" -o "$dir/dst" ./dst >"$dir/build.log" 2>&1 & p=$!
r=0
if [ "${2:-}" = race ]; then
  CGO_ENABLED=1 go build -race -overlay "$dir/ov.json" -o "$dir/dst-race" ./dst >"$dir/build-race.log" 2>&1 || { cat "$dir/build-race.log"; r=3; }
fi
wait $p || { cat "$dir/build.log"; r=3; }
[ $r = 0 ] || echo "harness: build failed"
exit $r
