#!/bin/bash
# matrix.sh RUNS [ID...]: which checks' scenarios notice which planted bugs, RUNS plain runs each (scratch copies; no race build).
here=$(cd "$(dirname "$0")/.." && pwd); n=$1; shift
props="${PROPS:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 23 24}"
for id in ${@:-$(ls "$here/seeded")}; do
  w=$(mktemp -d /tmp/matrix.XXXXXX) || exit 1
  cp -a /repo "$w/r"
  git -C "$w/r" apply "$here/seeded/$id/patch.diff" && bash "$here/tools/alt.sh" "$w/r" "$w/b" > "$w/log" 2>&1 || cat "$w/log"
  cd "$w/b"
  hits=$(for p in $props; do echo $p; done | xargs -P 8 -I{} sh -c 'timeout 120 ./dst -mode survey -prop C{} -from 0 -to '$n' > s.{} 2>/dev/null; rc=$?; if grep -q "^\*" s.{}; then echo C{}; elif [ $rc != 0 ]; then echo "C{}?"; fi' | sort | tr '\n' ' ')
  echo "$id: $hits"
  cd /; rm -rf "$w"
done
