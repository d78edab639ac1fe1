#!/bin/bash
# catch.sh [ID...]: runs each planted bug's property's quick check against a scratch copy of /repo with the bug applied.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in ${@:-$(ls "$here/seeded")}; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  w=$(mktemp -d /tmp/catch.XXXXXX) || exit 1
  cp -a /repo "$w/r"
  if git -C "$w/r" apply "$here/seeded/$id/patch.diff"; then
    race= rexe=
    case " C01 C05 C10 C11 C14 C16 C23 " in *" $p "*) race=race rexe=$w/b/dst-race ;; esac
    bash "$here/tools/alt.sh" "$w/r" "$w/b" $race > "$w/log" 2>&1 || cat "$w/log"
    cp -r "$here/known_findings.txt" "$w/b/out/" 2>/dev/null
    mkdir -p "$w/b/out/evidence"
    s=$(date +%s)
    o=$(timeout 900 "$w/b/dst" -mode check -prop "$p" -seed "${VERIF_SEED:-1}" -tier quick -race "$rexe" -out "$w/b/out" -scratch "$w/b/scratch" 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -v VIOLATION | tail -1 | cut -c1-220)"
  else echo "$id: does not apply"; fi
  rm -rf "$w"
done
