#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
features=$(sed -n 's|^// features: ||p' "$here/demo.rs" | head -1)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/run"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
globalsearch = { path = "$repo", default-features = true, features = [$features] }
ndarray = "0.16.1"
[profile.dev]
debug = 0
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> "$t/log" || { tail -20 "$t/log"; exit 3; }
cd "$t/run" && timeout 200 "$t/target/debug/demo"
