#!/bin/bash
# Usage: check.sh ID [--replay FILE] -- build the harness against /repo's working tree and run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
export PATH=/root/.cargo/bin:$PATH HOME=/root
unset RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" PGV_VERIF_DIR="$here"
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
# Cargo goes by modification times; a file restored with an older one must still be seen.
cur=$(find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p "$CARGO_TARGET_DIR"
stamp="$CARGO_TARGET_DIR/repo.stamp"
if [ "$(cat "$stamp" 2>/dev/null)" != "$cur" ]; then
  (cd "$here/harness" && cargo clean --offline --quiet -p portgraph; cargo clean --offline --quiet --profile rel -p portgraph) >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/build-$id.log"
# Two builds: with debug assertions and overflow checks, and without.
if ! (cd "$here/harness" && cargo build --offline --quiet --bin "$id" && cargo build --offline --quiet --profile rel --bin "$id") >"$log" 2>&1; then
  cat "$log" >&2
  echo "$id: the harness does not build against /repo" >&2
  exit 2
fi
echo "$cur" > "$stamp"
export PGV_REL="$CARGO_TARGET_DIR/rel/$id"
exec "$CARGO_TARGET_DIR/debug/$id" "$@"
