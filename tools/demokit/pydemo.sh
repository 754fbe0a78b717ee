#!/bin/bash
# Exits 0 if the property holds for the scenario in demo.py, and otherwise with something else.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$d"' EXIT
CARGO_TARGET_DIR=$d cargo build --offline -q --bin http_proof_gen --features build_server 2>"$d/build.log" || { cat "$d/build.log"; exit 98; }
PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$here/demo.py" "$d/debug/http_proof_gen"
