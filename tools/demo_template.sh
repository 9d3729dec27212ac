#!/bin/bash
# run with cwd = repository; builds main.rs (beside this script) against it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
sed "s|@REPO@|$repo|g" "$here"/main.rs > "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
puzzle-utils = { path = "$repo" }
image = "0.25.1"
thiserror = "1.0.62"
serde_json = "1"
serde = "1"
EOF
export PUZZLE_REPO=$repo
cargo build --offline --quiet --manifest-path "$t/Cargo.toml" --target-dir "$t/target" || exit 98
timeout 120 "$t/target/debug/demo"
