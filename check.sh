#!/bin/bash
# check.sh ID...   decide properties on /repo's current source (offline)
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
BIN=$V/analyzer/bin/mc
if [ ! -x "$BIN" ] || [ -n "$(find analyzer -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p analyzer/bin
  (cd analyzer && GOFLAGS=-mod=mod go build -o "$BIN.$$" . && mv -f "$BIN.$$" "$BIN") || { echo "cannot build the analyzer"; exit 2; }
fi
[ "$1" = --build ] && exit 0
exec env GOFLAGS=-mod=readonly "$BIN" -repo "${REPO:-/repo}" -verif "$V" -tier "${VERIF_TIER:-quick}" "$@"
