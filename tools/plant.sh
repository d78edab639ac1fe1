#!/bin/bash
# plant.sh DIR: checks a planted bug in a scratch copy. DIR holds edit.py (run with cwd = the copy), PKG, demo_test.go, meta.json.
# On success writes /verif/seeded/<name>/.
set -u
d=$(realpath "$1"); name=$(basename "$d"); pkg=$(cat "$d/PKG"); flags=$(cat "$d/FLAGS" 2>/dev/null)
. /opt/vp/env.sh
out=/verif/seeded/$name
w=$(mktemp -d /tmp/plant.XXXXXX); trap '[ -n "$w" ] && rm -rf "$w"' EXIT
cp -a /repo "$w/r"; cd "$w/r" || exit 1
python3 "$d/edit.py" || { echo "$name: edit failed"; exit 1; }
gofmt -w $(git diff --name-only); git diff > "$w/patch.diff"
go build ./... || { echo "$name: does not build"; exit 1; }
go test -json -vet=off -count=1 ./... > "$w/t.json" 2>/dev/null
python3 - "$w/t.json" <<'P' || { echo "$name: existing tests fail"; exit 1; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
if b-ok: print(sorted(b-ok)[:5]); sys.exit(1)
P
mkdir -p "$out"
cp "$w/patch.diff" "$out/"; cp "$d/demo_test.go" "$d/meta.json" "$out/"
cat > "$out/demo.sh" <<P
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d) || exit 2
trap '[ -n "\$tmp" ] && rm -rf "\$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/o.json"
timeout 250 go test -vet=off -count=1 -timeout 200s $flags -overlay "\$tmp/o.json" -run '^TestDemo\$' ./$pkg
P
bash "$out/demo.sh" > "$w/bug.log" 2>&1; b=$?
git checkout -q -- . ; bash "$out/demo.sh" > "$w/clean.log" 2>&1; c=$?
if [ $b = 0 ] || [ $c != 0 ]; then echo "$name: demo patched=$b clean=$c"; tail -n 15 "$w/bug.log"; tail -n 15 "$w/clean.log"; rm -rf "/verif/seeded/$name"; exit 1; fi
echo "$name: ok ($(grep -c '^[-+][^-+]' "$out/patch.diff") lines)"
