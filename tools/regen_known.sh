#!/bin/bash
# Re-records the executions behind the `known:` lines of known_findings.txt. Needed after changes to
# what the simulator generates, as a replay file is a list of its choices.
cd "$(dirname "$0")/.." || exit 2
./check.sh --build || exit 2
for k in nsec-wrap txt-strings nsec-case nsec-both; do
	t=quick v=1
	r=$(SIM_ROOT=$PWD SIM_KNOWN=$k VERIF_SEED=$v sim/target/debug/dnssec-sim run C04 $t | sed -n 's/^VIOLATION .*replay=//p')
	if [ -n "$r" ]; then mv "$r" known/C04-$k.json; echo "known/C04-$k.json"; else echo "$k: nothing fails"; fi
done
