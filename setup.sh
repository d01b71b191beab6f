#!/bin/bash
# Warms the build cache: every check rebuilds from /repo's working tree by itself.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"; REPO="${VERIF_REPO:-/repo}"; NEED_CLI=1
. "$VERIF/env.sh"
S="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$S"' EXIT
build_harness "$S"
