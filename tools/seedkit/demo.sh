#!/bin/bash
# Builds main.rs (and fake.rs) against the crate in the current directory and runs it:
# exit 0 if the behaviour is as it should be.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mysql-connector = { path = "$repo", features = ["serde"] }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "macros", "io-util", "time", "net", "test-util"] }
chrono = "0.4"
sha1 = "0.10"
sha2 = "0.10"
[profile.dev]
debug = false
TOML
timeout 280 cargo run --quiet --offline --manifest-path "$work/Cargo.toml" --target-dir "$work/target"
