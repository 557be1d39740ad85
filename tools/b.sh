#!/bin/bash
# build one crate for development: b.sh core
export VERIF_DIR=${VERIF_DIR:-/verif}
. "$VERIF_DIR/tools/env.sh"
cd "$VERIF_DIR/sim/$1" && RUSTFLAGS="$SIM_FLAGS" cargo build --release --offline --target $SIM_TARGET
