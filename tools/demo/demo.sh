#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dice-bytecode = { path = "$repo/dice-bytecode" }
dice-compiler = { path = "$repo/dice-compiler" }
dice-core = { path = "$repo/dice-core" }
dice-syntax = { path = "$repo/dice-syntax" }
[workspace]
T
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; elif [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$d/Cargo.lock"; fi
cd "$d" && CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" CARGO_NET_OFFLINE=true cargo build --offline -q 2> "$d/log" || { tail -30 "$d/log"; exit 2; }
timeout 60 "${DEMO_TARGET:-$d/target}/debug/demo"
