#!/bin/bash
# check.sh ID   build the simulator against /repo's working tree and search for violations of one property
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 3
export RUSTFLAGS="--cfg brec_sim --cfg rustix_use_libc" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -60 >&2
    echo "the simulator does not build against /repo" >&2
    rm -f "$log"
    exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec ./target/release/brec_sim "${2:-check}" "$1"
