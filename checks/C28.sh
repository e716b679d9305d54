#!/bin/bash
# C28: builds the C interface from /repo's tree as the extension of the Python package and runs the Python monitor on it.
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
mkdir -p evidence
LOG="$VERIF_DIR/evidence/build-C28.log"
if ! cargo build --manifest-path ffi/Cargo.toml --target-dir target --locked >"$LOG" 2>&1; then
  echo "build failed for C28:"; tail -40 "$LOG"; exit 2
fi
exec python3 py/c28.py /repo target/debug/deps/librustfst_ffi.so "$@"
