#!/bin/bash
# C26: builds the real command-line program from /repo's tree and the monitor that drives it.
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
mkdir -p evidence
LOG="$VERIF_DIR/evidence/build-C26.log"
if ! cargo build --manifest-path cli/Cargo.toml --target-dir target --locked >"$LOG" 2>&1; then
  echo "build failed for C26:"; tail -40 "$LOG"; exit 2
fi
exec target/debug/c26 "$@"
