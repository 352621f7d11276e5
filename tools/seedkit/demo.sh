#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run in the repository's top directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 9
trap '/bin/rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here"/*.rs "$t/src/" && cp "$here/Cargo.lock" "$t/" || exit 9
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" || exit 9
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { tail -50 "$t/log"; exit 8; }
timeout 60 "$t/target/debug/demo"
