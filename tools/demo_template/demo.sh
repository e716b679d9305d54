#!/bin/bash
# Builds main.rs against the rustfst crate of the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/oi/src"
cp "$HERE/main.rs" "$T/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustfst = { path = "$REPO/rustfst" }
anyhow = "1"
[patch.crates-io]
ordered_iter = { path = "oi" }
[profile.dev]
debug = 0
incremental = false
X
cat > "$T/oi/Cargo.toml" <<X
[package]
name = "ordered_iter"
version = "0.1.2"
edition = "2018"
[workspace]
X
cat > "$T/oi/src/lib.rs" <<'X'
//! Offline stand-in for the unreachable `ordered_iter` crate: stable_bst only
//! implements these two traits for its iterators, and rustfst never uses them.
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
X
cd "$T" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
if ! cargo build --offline >"$T/log" 2>&1; then tail -30 "$T/log"; exit 3; fi
timeout 120 "$T/target/debug/demo"
