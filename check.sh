#!/bin/bash
# check.sh <property> [--replay FILE]
# Builds the simulator from /repo's working tree and decides one property by simulated runs.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-dst.XXXXXX") || exit 3
trap '[ -n "$tmp" ] && rm -rf "$tmp"' EXIT
race=
case " C01 C05 C10 C11 C14 C16 C23 " in *" $prop "*) race=race ;; esac
bash "$here/build.sh" "$tmp" $race || exit 3
rexe=
[ -n "$race" ] && rexe=$tmp/dst-race
if [ "${2:-}" = --replay ]; then
  "$tmp/dst" -mode show -file "${3:?replay file}" -race "$rexe" -scratch "$tmp"
  exit $?
fi
"$tmp/dst" -mode check -prop "$prop" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -race "$rexe" -out "$here" -scratch "$tmp" ${VERIF_RUNS:+-runs "$VERIF_RUNS"}
