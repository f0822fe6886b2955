#!/bin/bash
# build_conc.sh DIR: instrument /repo and build the schedule explorer into DIR
set -e
D=$1
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOTOOLCHAIN=local
cd "$(dirname "$0")"
go build -o $D/instr ./cmd/instr
for lvl in 2 1 0; do
  rm -rf "$D/gen"
  if $D/instr -src ${SRC:-/repo} -dst $D/gen -level $lvl >$D/instr.log 2>&1; then
    sed "s#=> /repo#=> $D/gen#" go.mod > $D/conc.mod
    cp go.sum $D/conc.sum
    if go build -modfile=$D/conc.mod -o $D/mcconc ./cmd/mcconc 2>$D/build.log; then echo "level $lvl" >$D/level; exit 0; fi
  fi
done
cat $D/instr.log $D/build.log >&2
exit 3
