#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: writes demo.sh beside main.go and meta.json from stdin JSON {needs, what_it_breaks}."""
import json, os, sys
i, prop = sys.argv[1:3]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
m = json.load(sys.stdin); m = {"property": prop, **m}
json.dump(m, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken. Run with cwd = repository root.
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
S="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$S"' EXIT
cp go.mod go.sum "$S/"
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/main.go"}}' "$R" "$D" > "$S/overlay.json"
go build -modfile="$S/go.mod" -overlay="$S/overlay.json" -buildvcs=false -o "$S/demo" ./zz_demo || exit 3
%scd "$S" && ./demo
''' % ("go build -modfile=\"$S/go.mod\" -buildvcs=false -o \"$S/gopf\" . || exit 3\n" if m.pop("cli", False) else ""))
json.dump(m, open(d + "/meta.json", "w"), indent=1)
