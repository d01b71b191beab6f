#!/bin/bash
# seedlib.sh ID [check]: validates one planted bug in a scratch copy of /repo.
# Confirms: patch applies, builds, stable tests pass, demo 0 without / nonzero with, and (with 'check') that the check catches it.
set -u
ID="$1"; MODE="${2:-check}"; V=/verif; D=$V/seeded/$ID
. <(sed -n '/^export/p' $V/env.sh)
W=$(mktemp -d /tmp/seedw.XXXXXX); trap 'rm -rf -- "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
git -C "$W/repo" checkout -q -- . 
cd "$W/repo"
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?
git apply "$D/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
go build ./... >"$W/b" 2>&1 || { echo "$ID: BUILD FAILS"; cat "$W/b"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
t=ok
if [ "$MODE" != fast ]; then
  GODEBUG=randautoseed=0 go test -count=1 -vet=off ./... >"$W/t" 2>&1 || { grep -E -- '--- FAIL|^FAIL' "$W/t" | head; t=TESTS-FAIL; }
fi
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
c=-
r=$(VERIF_REPO="$W/repo" $V/check.sh $prop quick 2>/dev/null); c=$?
echo "$ID prop=$prop demo0=$d0 demo1=$d1 tests=$t check_exit=$c $(echo "$r" | grep -m1 VIOLATION)"
[ $d0 -eq 0 ] || tail -5 "$W/d0"
[ $d1 -ne 0 ] || tail -5 "$W/d1"
