#!/bin/bash
# Adds demo.rs as a test module of the file named in its first line, in a scratch copy of the crate in the current
# directory, and runs that test: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
file=$(sed -n 's|^// file: ||p' "$here/demo.rs" | head -1)
features=$(sed -n 's|^// features: ||p' "$here/demo.rs" | head -1)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/c" "$t/tmp"
cp -r "$repo/src" "$repo/README.md" "$t/c/"
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$t/c/Cargo.lock"
# the manifest without benches, examples and the dev-dependencies that come from git
awk '/^\[/ { skip = ($0 ~ /^\[\[(bench|example)\]\]/ || $0 ~ /^\[dev-dependencies/) } !skip' "$repo/Cargo.toml" > "$t/c/Cargo.toml"
printf '\n[workspace]\n[profile.dev]\ndebug = 0\n' >> "$t/c/Cargo.toml"
cat "$here/demo.rs" >> "$t/c/$file"
cd "$t/c" || exit 3
TMPDIR="$t/tmp" CARGO_TARGET_DIR="$t/target" timeout 280 cargo test --lib --offline -q $features planted_demo > "$t/log" 2>&1
rc=$?
grep -q "test result: ok. [1-9]" "$t/log" && [ $rc = 0 ] && exit 0
tail -25 "$t/log"
exit 1
