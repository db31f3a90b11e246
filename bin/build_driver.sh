#!/bin/bash
# usage: build_driver.sh OUTDIR [-race] file.go...   builds OUTDIR/driver from /repo's working tree
set -e
out=$1; shift
race=
if [ "$1" = "-race" ]; then race=-race; shift; fi
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
{
  echo '{"Replace": {'
  echo "\"$repo/go.mod\": \"$here/harness/go.mod\","
  echo "\"$repo/go.sum\": \"$here/harness/go.sum\""
  for f in "$@"; do echo ",\"$repo/zz_$(basename "$f")\": \"$here/harness/$f\""; done
  echo '}}'
} > "$out/overlay.json"
export GOFLAGS="-mod=readonly -overlay=$out/overlay.json"
cd "$repo"
go test -c $race -vet=off -o "$out/driver" .
