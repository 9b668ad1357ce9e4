#!/bin/bash
# check.sh ID [quick|thorough]: builds and runs the check of one property.
V="$(cd "$(dirname "$0")" && pwd)"
case $1 in C0[1-5]) W=core; B=ksim-core ;; *) W=; B=ksim ;; esac
"$V/build.sh" $W || { echo "cannot build the simulator against /repo" >&2; exit 2; }
exec "$V/sim/target/release/$B" check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --dir "$V"
