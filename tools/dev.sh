#!/bin/bash
# dev.sh CRATE SECS PROP... : build and run checks
export VERIF_DIR=${VERIF_DIR:-/verif}
c=$1 s=$2; shift 2
bash $VERIF_DIR/tools/b.sh $c 2>&1 | grep -E '^error|-->.*src|panicked|error\[' | head -20
for p in "$@"; do echo "== $p"; SIM_SECS=$s timeout 400 $VERIF_DIR/target/x86_64-unknown-linux-gnu/release/sim$c check $p; echo rc=$?; done
