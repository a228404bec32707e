#!/bin/bash
# Builds demo.rs against the library in the current directory (/repo) and runs it, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 TZ=UTC
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ruplicity = { path = "$repo" }
tar = "0.4"
flate2 = "1.0"
time = "0.1"
T
cd "$d" || exit 2
cargo build --offline -q >"$d/log" 2>&1 || { cat "$d/log"; echo "demo does not build"; exit 3; }
cd "$d/scratch" && timeout 120 ../target/debug/demo
