#!/bin/bash
# Build every simulator.
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bash "$VERIF_DIR/tools/build.sh" $(awk '{print $2}' "$VERIF_DIR/tools/crates.txt" | sort -u)
