#!/bin/bash
# run the native harness against a copy of the crate: hx.sh REPO [harness args]
R=$1; shift
D=/tmp/hx/$(basename $R)
mkdir -p $D
rsync -a --exclude target /verif/harness/ $D/ 2>/dev/null || cp -r /verif/harness/src /verif/harness/Cargo.* $D/
sed -i "s#/repo/crates#$R/crates#" $D/Cargo.toml
cd $D && CARGO_TARGET_DIR=/tmp/hx/target cargo build --offline 2>&1 | grep -E '^error' -A8
cp /tmp/hx/target/debug/harness $D/hbin
$D/hbin "$@"
