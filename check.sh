#!/bin/bash
# check.sh PROPERTY [quick|thorough]   explore a property
# check.sh --replay FILE               replay what a failing check reported
# check.sh --build                     only build
# check.sh --selftest                  same seeds, different worker counts: same executions
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export RUSTFLAGS="--cfg dnssec_sim" CARGO_TARGET_DIR="$PWD/sim/target" SIM_ROOT="$PWD"
mkdir -p sim/target evidence replays
exec 9>sim/target/.lock
flock 9
# Cargo decides by modification times whether to rebuild; copies of the repository may carry any.
now=$( (cd /repo && find Cargo.toml src wasmpack -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum;
	cd "$SIM_ROOT" && sha256sum sim/Cargo.* sim/src/*.rs sim/httpsrv/Cargo.toml sim/wee_stub/src/*.rs) | sha256sum)
if [ "$now" != "$(cat sim/target/.built 2>/dev/null)" ] || [ ! -x sim/target/debug/dnssec-sim ]; then
	rm -f sim/target/.built
	[ -d sim/target/debug ] && (cd sim && cargo clean --offline -q -p dnssec-prover -p dnssec-prover-wasm -p http-proof-gen-sim -p dnssec-sim 2>/dev/null)
	# If the server or the wrapper does not build, the checks of everything else can still run.
	for f in http,wasm http wasm none; do
		[ $f = none ] && f=
		(cd sim && cargo build --offline -q --no-default-features --features "$f") >sim/target/build.log 2>&1 && break
		grep -E '^error' -A12 sim/target/build.log
		if [ -z "$f" ]; then echo "the build failed"; exit 2; fi
		echo "not everything builds"
	done
	echo "$now" >sim/target/.built
fi
mkdir -p sim/target/js
echo '{"type":"module"}' >sim/target/js/.package.json
for f in /repo/wasmpack/*.js sim/js/*.js; do cmp -s "$f" "sim/target/js/${f##*/}" || cp "$f" sim/target/js/; done
cmp -s sim/target/js/.package.json sim/target/js/package.json || cp sim/target/js/.package.json sim/target/js/package.json
flock -u 9
exec 9>&-
case "$1" in
	--build) exit 0;;
	--selftest) exec sim/target/debug/dnssec-sim selftest;;
	--replay) exec sim/target/debug/dnssec-sim replay "$2";;
	*) exec sim/target/debug/dnssec-sim run "$1" "${2:-quick}";;
esac
