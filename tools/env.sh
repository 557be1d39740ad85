# Sourced by the scripts: the toolchain and flags of the simulation builds.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$VERIF_DIR/target RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=
unset HEADERS_TO_STDOUT
SIM_TARGET=x86_64-unknown-linux-gnu
SIM_FLAGS="--cfg tp_sim -Zsanitizer=thread -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Clinker=$VERIF_DIR/tools/ccwrap.sh"
