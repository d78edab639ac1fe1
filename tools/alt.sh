#!/bin/bash
# alt.sh REPODIR OUTDIR [race]: builds the simulator against a copy of the library (a development aid; the
# registered checks use build.sh, which takes /repo). OUTDIR is made.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
repo=$1 dir=$2
mkdir -p "$dir/inst" "$dir/out" "$dir/scratch"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
cp -r "$here/sim" "$dir/sim" && cd "$dir/sim" || exit 3
sed -i "s#=> /repo#=> $repo#" go.mod
go run ./instr -repo "$repo" -out "$dir/inst" -overlay "$dir/ov.json" || exit 3
go build -overlay "$dir/ov.json" -o "$dir/dst" ./dst || exit 3
if [ "${3:-}" = race ]; then CGO_ENABLED=1 go build -race -overlay "$dir/ov.json" -o "$dir/dst-race" ./dst || exit 3; fi
