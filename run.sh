#!/bin/bash
# run.sh CHECK [args]: builds the monitors against /repo's working tree and runs one check.
# The library is compiled from /repo through an overlay that adds block counters; /repo is not written.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export VH_DIR="$dir" VH_REPO="${VH_REPO:-/repo}"
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"
prop=$1
tmp=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" VH_TMP="$tmp"
cd "$dir/harness" || exit 2
mode=cov
case "$prop" in C16) mode=race ;; esac
if [ "$mode" = race ]; then
  go build -race -o "$tmp/vh" ./cmd/vh || exit 2
else
  mkdir -p "$tmp/cov"
  go build -o "$tmp/instr" ./cmd/instr && "$tmp/instr" "$VH_REPO" "$tmp/cov" || exit 2
  go build -tags verifcov -overlay "$tmp/cov/overlay.json" -o "$tmp/vh" ./cmd/vh || exit 2
fi
export GORACE="halt_on_error=1 exitcode=66"
export VH_MODE=$mode
"$tmp/vh" "$@"
