#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then search.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or simulator error)
cd "$(dirname "$0")" || exit 2
export TONBO_VERIF="$PWD" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
mkdir -p work evidence
if ! bash build.sh > work/build.log 2>&1; then
    grep -E -A12 "^error" work/build.log | head -60 >&2
    echo "ERROR: the simulator does not build against /repo's tree" >&2
    exit 2
fi
exec "${TONBO_SIM_TARGET:-$PWD/target}/release/tonbo-sim" check "$1"
