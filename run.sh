#!/bin/bash
# run.sh PROPERTY quick|thorough: builds the simulator against /repo and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC
export CARGO_NET_OFFLINE=true
sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
    # Don't trust timestamps.
    cargo clean --offline -q -p steit -p steit-derive -p schemas -p sim 2>/dev/null
    rm -f target/repo.sum
fi
log="$(mktemp)"
if ! cargo build --offline --locked -q >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "the simulator doesn't build" >&2
    exit 2
fi
rm -f "$log"
echo "$sum" >target/repo.sum
[ "$1" = build ] && exit 0
export SIM_ROOT="$here"
exec ./target/debug/sim check "$1" "${2:-${VERIF_TIER:-quick}}"
