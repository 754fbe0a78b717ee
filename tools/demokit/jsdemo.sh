#!/bin/bash
# Exits 0 if the property holds for the scenario in demo.mjs, and otherwise with something else.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$d"' EXIT
cp "$here"/*.mjs "$d/" && cp "$here/dnssec_prover_wasm.js" "$d/" && cp "$PWD/wasmpack/doh_lookup.js" "$d/" && echo '{"type":"module"}' >"$d/package.json" || exit 99
cd "$d" || exit 99
timeout 60 node demo.mjs
