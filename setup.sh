#!/bin/bash
# builds the extraction tool; the search harness is built by each check against /repo's working tree
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
cargo build --offline --release --manifest-path vx/Cargo.toml || exit 1
cargo build --offline --manifest-path harness/Cargo.toml --features structs || echo "harness not built (tree does not build?)"
exit 0
