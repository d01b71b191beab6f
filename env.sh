# sourced: toolchain environment (the same as the repository's own build) and the harness build
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build

build_harness() { # $1 = scratch directory
  local s="$1" sep="" f
  cp "$REPO/go.mod" "$s/go.mod" && cp "$REPO/go.sum" "$s/go.sum" || return 1
  {
    printf '{"Replace":{'
    for f in "$VERIF"/harness/*.go; do
      printf '%s"%s/zz_verif_harness/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=","
    done
    printf '}}'
  } > "$s/overlay.json"
  ( cd "$REPO" && go build -modfile="$s/go.mod" -overlay="$s/overlay.json" -buildvcs=false -o "$s/vh" ./zz_verif_harness ) || return 1
  if [ "${NEED_CLI:-0}" = 1 ]; then
    ( cd "$REPO" && go build -modfile="$s/go.mod" -buildvcs=false -o "$s/gopf" . ) || return 1
  fi
}
