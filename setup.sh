#!/bin/sh
# Builds every harness crate (written by meta/gen.py).
cd "$(dirname "$0")/harness" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
for c in h_misc h_rbe h_rdf h_shacl h_shex; do
    cargo build --offline -q -p $c || exit 1
done
