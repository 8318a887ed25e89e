#!/bin/bash
# Called by mc/check.sh C31. Builds the command line tool, the port emulation that is preloaded into it, and the checker.
log="$VERIF_DIR/mc/target/build-C31.log"
mkdir -p mc/target/c31
fail() { grep -E '^(error|shim)' -A 8 "$log" | head -60; echo "BUILD FAILED for C31" >&2; exit 2; }
gcc -O1 -shared -fPIC -w -o mc/target/c31/shim.so c31/shim.c >"$log" 2>&1 || fail
cargo build --manifest-path /repo/dynamixel2-cli/Cargo.toml --target-dir mc/target/cli --offline --locked --bin dynamixel2 >>"$log" 2>&1 || fail
cargo build --manifest-path mc/Cargo.toml --release --offline --bin c31 >>"$log" 2>&1 || fail
C31_DIR=$(mktemp -d) || exit 2
export C31_DIR
trap 'rm -rf "$C31_DIR"' EXIT
mc/target/release/c31 "$@"
