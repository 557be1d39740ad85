#!/bin/bash
# build.sh CRATE..: build simulators; needs VERIF_DIR
. "$VERIF_DIR/tools/env.sh"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
for c in "$@"; do
    log=$CARGO_TARGET_DIR/build-$c.log
    if ! (cd "$VERIF_DIR/sim/$c" && RUSTFLAGS="$SIM_FLAGS" cargo build --locked --release --offline --target $SIM_TARGET) > "$log" 2>&1; then
        echo "building the simulator of $c failed:" >&2
        grep -A12 -E '^error' "$log" | head -60 >&2
        exit 2
    fi
done
