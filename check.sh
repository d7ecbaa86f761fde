#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator against /repo's working tree and runs one check.
# check.sh --build: only builds.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_RESOLVER_LOCKFILE_PATH CARGO_TARGET_DIR RUSTFLAGS
cd "$(dirname "$0")/sim" || exit 2
log=$(mktemp)
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
exec ./target/release/vsim check "$@"
