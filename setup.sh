#!/bin/bash
# Builds everything once, offline, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
for d in mon zed full; do
    (cd "$d" && cargo build --offline --quiet) || exit 1
done
