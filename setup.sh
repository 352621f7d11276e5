#!/bin/bash
# Builds the extractor and the harness once, as a check that the toolchain works; every check
# rebuilds what it needs itself.
cd "$(dirname "$0")" || exit 1
mkdir -p work replays evidence
cargo build --release --offline --manifest-path extract/Cargo.toml || exit 1
CARGO_TARGET_DIR=work/ht cargo build --offline --manifest-path harness/Cargo.toml || exit 1
verus --version
