#!/bin/bash
# Build every check once, offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH HOME=/root
unset RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
cd "$here/harness"
cargo build --offline --quiet --bins
cargo build --offline --quiet --profile rel --bins
# As in check.sh: what these builds are made from.
find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum > "$CARGO_TARGET_DIR/repo.stamp"
