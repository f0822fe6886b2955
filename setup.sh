#!/bin/bash
# Nothing has to be installed; this only shows that the tools can be built.
cd "$(dirname "$0")" || exit 3
D=$(mktemp -d /tmp/mcverif.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
./mc/build_conc.sh "$D" && { [ ! -d mc/cmd/mcseq ] || ./mc/build_seq.sh "$D"; }
