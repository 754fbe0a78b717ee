#!/bin/bash
# Exits 0 if the property holds for the scenario in main.rs, and otherwise with something else.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" && { [ ! -f "$here/Cargo.lock" ] || cp "$here/Cargo.lock" "$d/"; } && sed "s|@REPO@|$PWD|" "$here/Cargo.toml" >"$d/Cargo.toml" || exit 99
cd "$d" || exit 99
flags=""
# Whoever needs trust anchors of their own says so.
grep -q "trust_anchors" src/main.rs src/kit.rs 2>/dev/null && ! grep -q "^// no-sim" src/main.rs && flags="--cfg dnssec_sim"
RUSTFLAGS="$flags" cargo build --offline -q 2>build.log || { cat build.log; exit 98; }
timeout 60 ./target/debug/demo
