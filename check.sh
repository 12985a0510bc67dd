#!/bin/bash
# Builds the simulator against /repo's current tree (hooks on) and runs one
# property's check: check.sh C01   (VERIF_SEED, VERIF_TIER from the environment)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log="$(mktemp)"
if ! RUSTFLAGS="--cfg hyper_sim" cargo build --offline -q >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
cd "$here" && exec "$here/sim/target/debug/hypersim" check "$@"
