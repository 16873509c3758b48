#!/bin/bash
# replay.sh <replay file>: rebuild from /repo's working tree and run that one execution again.
f="$(readlink -f "$1")"
cd "$(dirname "$0")" || exit 2
export TONBO_VERIF="$PWD"
bash build.sh > /dev/null 2>&1 || { echo "ERROR: build failed" >&2; exit 2; }
exec "${TONBO_SIM_TARGET:-$PWD/target}/release/tonbo-sim" replay "$f"
