#!/bin/bash
# run.sh <property id> [args]: rebuilds the check from /repo's working tree and runs it.
# run.sh setup: builds everything once.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$ROOT/harness/target" VERIF_ROOT="$ROOT"
export RUSTFLAGS=-Awarnings
unset CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS
ID="$1"; shift
# Cargo decides by modification times; the content hash makes sure that a changed tree is rebuilt.
mkdir -p "$CARGO_TARGET_DIR"
NOW="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" != "$NOW" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/fundsp-*
  echo "$NOW" > "$CARGO_TARGET_DIR/repo.hash"
fi
if [ "$ID" = setup ]; then
  exec cargo build --release --offline --locked --manifest-path "$ROOT/harness/Cargo.toml" --bins
fi
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
if ! cargo build --release --offline --locked --manifest-path "$ROOT/harness/Cargo.toml" --bin "$BIN" >&2; then
  echo "build failed" >&2
  exit 5
fi
exec "$CARGO_TARGET_DIR/release/$BIN" "$@"
