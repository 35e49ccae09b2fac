#!/bin/bash
# new_bug.sh ID: takes the current diff of the scratch tree /tmp/edit/repo as the patch of a new planted bug.
set -eu
B=/verif/seeded/$1; mkdir -p $B
git -C /tmp/edit/repo diff > $B/patch.diff
git -C /tmp/edit/repo checkout -q -- .
cat > $B/demo.sh <<'X'
#!/bin/bash
# Runs demo.rs (beside this file) against the fundsp sources in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fundsp = { path = "$R" }
[profile.dev]
opt-level = 1
debug = false
Y
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet --manifest-path "$T/Cargo.toml" || exit 99
exec timeout 120 "$T/target/debug/demo"
X
sed -i 's/^exec timeout/timeout/' $B/demo.sh
wc -l $B/patch.diff
