#!/bin/bash
# usage: check.sh --build-only | check.sh <ID> [--tier quick|thorough] [--replay FILE] [--only HARNESS]
# Rebuilds the checker against /repo's working tree and runs it. Exit 0: held, 1: VIOLATION, 2: no answer.
cd "$(dirname "$0")" || exit 2
export MC_ROOT=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
log=$(mktemp)
if ! (cd mc && cargo build --offline -q) >"$log" 2>&1; then
    tail -40 "$log" >&2; rm -f "$log"
    echo "the checker does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = --build-only ] && exit 0
exec mc/target/debug/mc "$@"
