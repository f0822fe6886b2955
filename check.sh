#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
# Builds the explorer from /repo's working tree in a scratch directory, runs it
# and removes the directory. Exit 0: held; 1: VIOLATION line; other: no answer.
cd "$(dirname "$0")" || exit 3
ID=$1; shift
TIER=${VERIF_TIER:-quick}
ARGS=()
while [ $# -gt 0 ]; do
  case "$1" in
    quick|thorough) TIER=$1 ;;
    --replay) ARGS+=(-replay "$2"); shift ;;
  esac
  shift
done
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
D=$(mktemp -d /tmp/mcverif.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
n=$((10#${ID#C}))
if [ "$n" -le 9 ]; then
  ./mc/build_conc.sh "$D" >"$D/out" 2>&1 || { cat "$D/out" >&2; echo "cannot build the instrumented copy of /repo" >&2; exit 3; }
  BIN=$D/mcconc
else
  ./mc/build_seq.sh "$D" >"$D/out" 2>&1 || { cat "$D/out" >&2; echo "cannot build against /repo" >&2; exit 3; }
  BIN=$D/mcseq
fi
mkdir -p evidence replay
cd "$D" || exit 3
TMPDIR=$D "$BIN" -id "$ID" -tier "$TIER" -verif "$OLDPWD" "${ARGS[@]}"
