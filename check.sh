#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [extra harness flags]
# Rebuilds the harness against /repo's current working tree and runs one property.
set -u
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift || true
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
case "$PROP" in C*|L02) NEED_CLI=1;; esac
. "$VERIF/env.sh"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
build_harness "$SCRATCH" || { echo "harness build failed" >&2; exit 2; }
mkdir -p "$VERIF/evidence" "$SCRATCH/work"
BUDGET=600; [ "$TIER" = thorough ] && BUDGET=3000
cd "$SCRATCH/work" || exit 2
export GODEBUG=randautoseed=0
GOPF_BIN="$SCRATCH/gopf" "$SCRATCH/vh" -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" \
  -evidence "$VERIF/evidence/$PROP.json" -replay-dir "$VERIF/evidence/replay" \
  -known "$VERIF/known_findings.json" -scratch "$SCRATCH/work" -budget "$BUDGET" "$@" >"$SCRATCH/stdout" 2>"$SCRATCH/stderr"
RC=$?
grep -v '^DONE$' "$SCRATCH/stdout"
if grep -q '^DONE$' "$SCRATCH/stdout" && [ $RC -le 1 ]; then exit $RC; fi
tail -40 "$SCRATCH/stderr" >&2
if [ -s "$SCRATCH/active" ] && [ $RC -gt 0 ] && [ $RC -lt 129 ]; then
  # the code under test ended the process (log.Fatal / fatal runtime error) inside a case
  mkdir -p "$VERIF/evidence/replay"
  R="$VERIF/evidence/replay/$PROP.json"
  python3 - "$PROP" "$TIER" "$SCRATCH/active" "$SCRATCH/stderr" "$RC" > "$R" <<'PY'
import json,sys
key=open(sys.argv[3]).read().rstrip("\n")
print(json.dumps({"property":sys.argv[1],"replay_cmd":"cd /verif && ./check.sh %s %s -case '%s'"%(sys.argv[1],sys.argv[2],key),
 "violations":[{"case":key,"detail":"the library ended the process with status "+sys.argv[5]+": "+open(sys.argv[4],errors="replace").read()[-2000:]}]},indent=1))
PY
  echo "  case: $(head -c 400 "$SCRATCH/active")"
  echo "VIOLATION property=$PROP replay=$R"
  exit 1
fi
exit 2
