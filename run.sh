#!/bin/bash
# run.sh ID: build the harness against /repo's working tree and run one check.
# Exit 0: held; 1: VIOLATION; 3: no answer (build failure, worker killed, ...).
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
# The toolchain /repo is built with (parcel_css does not compile on newer ones).
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.89.0}" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
log="$(mktemp)"
if ! cargo build --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -n 60 "$log"
    rm -f "$log"
    echo "INCONCLUSIVE property=${1:-all}: the harness does not build against /repo"
    exit 3
fi
rm -f "$log"
[ $# -eq 0 ] && exit 0
exec harness/target/debug/ftml-pbt check "$1"
