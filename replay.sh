#!/bin/bash
# replay.sh FILE: re-executes a replay file in a fresh process and prints its event log.
V="$(cd "$(dirname "$0")" && pwd)"
if grep -q '"prop[a-z]*": *"C0[1-5]"' "$1"; then W=core; B=ksim-core; else W=; B=ksim; fi
"$V/build.sh" $W || exit 2
exec "$V/sim/target/release/$B" replay "$1"
