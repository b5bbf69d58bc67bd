#!/bin/bash
# Builds the demonstration beside this file against /repo's spdmlib in a scratch directory and runs it.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
unset RUSTC_WORKSPACE_WRAPPER
mkdir -p "$tmp/src" && cp "$here"/*.rs "$tmp/src/" && cp /opt/vp/ws/Cargo.lock "$tmp/" || exit 2
cat > "$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
spdmlib = { path = "REPO/spdmlib", default-features = false, features = ["hashed-transcript-data", "mut-auth"] }
codec = { path = "REPO/codec" }
mctp_transport = { path = "REPO/mctp_transport" }
pcidoe_transport = { path = "REPO/pcidoe_transport" }
bytes = { version = "1", default-features = false }
[workspace]
T
sed -i "s,REPO/,$repo/," "$tmp/Cargo.toml"
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTFLAGS=-Awarnings
cargo build -q --offline > "$tmp/log" 2>&1 || { tail -60 "$tmp/log"; exit 2; }
REPO="$repo" timeout 120 "$tmp/target/debug/demo"
