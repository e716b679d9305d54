#!/bin/bash
# Nothing needs installing: every check builds its own monitor from /repo's tree. This only checks the toolchain.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
cargo --version && rustc --version
