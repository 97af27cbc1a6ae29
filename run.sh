#!/bin/sh
# usage: run.sh <harness crate> <property id>
# Builds one harness crate against /repo's current working tree and runs one property's check.
cd "$(dirname "$0")/harness" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
cargo build --offline -q -p "$1" 2>build.$1.log || { cat build.$1.log >&2; rm -f build.$1.log; echo "build of $1 failed" >&2; exit 2; }
rm -f build.$1.log
exec ./target/debug/"$1" run "$2"
