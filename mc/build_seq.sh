#!/bin/bash
# build_seq.sh DIR: build the sequential checks against /repo (env SRC overrides)
set -e
D=$1
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
cd "$(dirname "$0")"
sed "s#=> /repo#=> ${SRC:-/repo}#" go.mod > $D/seq.mod
cp go.sum $D/seq.sum
go build -modfile=$D/seq.mod -o $D/mcseq ./cmd/mcseq
