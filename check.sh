#!/bin/bash
# usage: check.sh <property id> [args for the monitor binary]
# Builds the monitor of one property against /repo's current working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
ID="$1"; shift
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
LOG="$VERIF_DIR/evidence/build-$ID.log"
mkdir -p "$VERIF_DIR/evidence"
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
if [ -x "checks/$ID.sh" ]; then
  exec "checks/$ID.sh" "$@"
fi
if ! cargo build --manifest-path harness/Cargo.toml --bin "$BIN" --target-dir target --locked >"$LOG" 2>&1; then
  echo "build failed for $ID:"; tail -40 "$LOG"; exit 2
fi
exec "target/debug/$BIN" "$@"
