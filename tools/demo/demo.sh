#!/bin/bash
# Builds main.rs beside this script against the hyper tree in the current
# directory and runs it. Exit 0: behaves; nonzero: broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here"/*.rs "$t/src/"
lock="$repo/Cargo.lock"
[ -f "$lock" ] || lock=/opt/vp/Cargo.lock
cp "$lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
hyper = { path = "$repo", features = ["full"] }
tokio = { version = "1", features = ["full", "test-util"] }
http-body-util = "0.1"
http-body = "1"
bytes = "1"
http = "1"
h2 = "0.4"
futures-util = { version = "0.3", default-features = false, features = ["alloc"] }
futures-channel = { version = "0.3", features = ["sink"] }
pin-project-lite = "0.2"
TOML
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS RUSTC_WRAPPER
cd "$t" || exit 3
cargo build --offline -q || exit 4
timeout 60 "$t/target/debug/demo"
