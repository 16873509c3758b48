#!/bin/bash
# Build the simulator against /repo's working tree.
set -u
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cap-lints warn --cfg tonbo_sim"
export CARGO_TARGET_DIR="${TONBO_SIM_TARGET:-$(cd .. && pwd)/target}"
exec cargo build --release --offline "$@"
