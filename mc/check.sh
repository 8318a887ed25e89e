#!/bin/bash
# Usage: mc/check.sh <ID> [--replay FILE | --only SCENARIO]
# Builds the checker of one property against /repo's working tree and runs it.
ID="$1"; shift
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUST_LOG RUST_BACKTRACE
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p evidence replays

case "$ID" in
  C29) exec bash c29/check.sh "$@" ;;
  C31) exec bash mc/c31.sh "$@" ;;
  C34) exec python3 cfg/check.py "$@" ;;
  C07 | C37) feat="--features log" ;;
  *) feat="" ;;
esac
log="$VERIF_DIR/mc/target/build-$ID.log"
mkdir -p mc/target
if ! cargo build --manifest-path mc/Cargo.toml --release --offline --bin "$bin" $feat >"$log" 2>&1; then
  grep -E '^error' -A 8 "$log" | head -60
  echo "BUILD FAILED for $ID" >&2
  exit 2
fi
exec mc/target/release/$bin "$@"
