#!/bin/bash
# check.sh PROPERTY: build from /repo's working tree and run the simulation.
# 0 held, 1 violated (with a VIOLATION line), 2 no answer.
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$VERIF_DIR/tools/env.sh"
crate=$(awk -v p="$1" '$1 == p {print $2}' "$VERIF_DIR/tools/crates.txt")
[ -n "$crate" ] || { echo "unknown property $1" >&2; exit 2; }
bash "$VERIF_DIR/tools/build.sh" "$crate" || exit 2
export TMPDIR=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap '/bin/rm -rf "$TMPDIR"' EXIT
"$CARGO_TARGET_DIR/$SIM_TARGET/release/sim$crate" check "$1"
