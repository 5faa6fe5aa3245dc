#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cmacro = { path = "$repo" }
syn = "2"
quote = "1"
proc-macro2 = "1"
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
