#!/bin/bash
# C25: the C interface, run natively and then under AddressSanitizer.
# C25_ASAN=only ./check.sh C25 --one N   replays a history under the sanitizer.
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
mkdir -p evidence
LOG="$VERIF_DIR/evidence/build-C25.log"
rc=0
if [ "${C25_ASAN:-}" != only ]; then
  if ! cargo build --manifest-path ffi/Cargo.toml --target-dir target --locked >"$LOG" 2>&1; then
    echo "build failed for C25:"; tail -40 "$LOG"; exit 2
  fi
  target/debug/c25 "$@"; rc=$?
  [ $# -gt 0 ] && exit $rc
  [ $rc -gt 1 ] && exit $rc
fi
if ! RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --manifest-path ffi/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir target/asan --locked >"$LOG" 2>&1; then
  echo "sanitizer build failed for C25:"; tail -40 "$LOG"; exit 2
fi
mkdir -p evidence/asan
if [ "${VERIF_TIER:-quick}" = thorough ]; then N=600000; else N=30000; fi
VERIF_DIR="$VERIF_DIR/evidence/asan" FSTMON_NOLIMIT=1 FSTMON_CASES="${FSTMON_CASES:-$N}" \
  ASAN_OPTIONS=exitcode=99:detect_leaks=0:allocator_may_return_null=1 \
  target/asan/x86_64-unknown-linux-gnu/debug/c25 "$@"; arc=$?
[ $# -gt 0 ] && exit $arc
python3 tools/merge_evidence.py C25 asan
[ $arc -gt $rc ] && rc=$arc
exit $rc
