#!/bin/bash
# C27: the workloads of all monitors natively (debug assertions check unsafe preconditions), under AddressSanitizer, under Miri.
# checks/C27.sh --one N            replays a case natively;  C27_ASAN=only ... --one N   under the sanitizer
# checks/C27.sh --miri W CASE SEED replays a case under Miri
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
mkdir -p evidence
LOG="$VERIF_DIR/evidence/build-C27.log"
if [ "${1:-}" = --miri ]; then shift; exec python3 tools/miri.py --one "$@"; fi
rc=0
if [ "${C27_ASAN:-}" != only ]; then
  if ! cargo build --manifest-path harness/Cargo.toml --bin c27 --target-dir target --locked >"$LOG" 2>&1; then
    echo "build failed for C27:"; tail -40 "$LOG"; exit 2
  fi
  target/debug/c27 "$@"; rc=$?
  [ $# -gt 0 ] && exit $rc
  [ $rc -gt 1 ] && exit $rc
fi
if ! CARGO_PROFILE_DEV_OPT_LEVEL=0 RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --manifest-path harness/Cargo.toml --bin c27 --target x86_64-unknown-linux-gnu --target-dir target/asan --locked >"$LOG" 2>&1; then
  echo "sanitizer build failed for C27:"; tail -40 "$LOG"; exit 2
fi
mkdir -p evidence/asan
if [ "${VERIF_TIER:-quick}" = thorough ]; then N=500000; else N=40000; fi
VERIF_DIR="$VERIF_DIR/evidence/asan" FSTMON_NOLIMIT=1 FSTMON_CASES="${FSTMON_CASES:-$N}" \
  ASAN_OPTIONS=exitcode=99:detect_leaks=0:allocator_may_return_null=1 \
  target/asan/x86_64-unknown-linux-gnu/debug/c27 "$@"; arc=$?
[ $# -gt 0 ] && exit $arc
python3 tools/merge_evidence.py C27 asan
[ $arc -gt $rc ] && rc=$arc
[ $rc -gt 1 ] && exit $rc
python3 tools/miri.py; mrc=$?
[ $mrc -gt $rc ] && rc=$mrc
exit $rc
