#!/bin/bash
# Builds every checker once (each check rebuilds what it needs again).
cd "$(dirname "$0")/.." || exit 1
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true
mkdir -p evidence replays mc/target
cargo build --manifest-path mc/Cargo.toml --release --offline --bins || exit 1
cargo build --manifest-path /repo/dynamixel2-cli/Cargo.toml --target-dir mc/target/cli --offline --locked --bin dynamixel2
