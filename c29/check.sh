#!/bin/bash
# Called by mc/check.sh C29. Builds the library and the checker with a stand-in for `core` whose atomics are scheduled;
# if that is not possible, with the real one.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="${VERIF_DIR:-$(dirname "$PWD")}"
out="$PWD/target"; mkdir -p "$out"; log="$out/build.log"; : >"$log"
R="rustc --edition 2021 --cap-lints allow -C debug-assertions=on"
lib() { $R --crate-type rlib --crate-name dynamixel2 --cfg 'feature="std"' --cfg 'feature="alloc"' /repo/src/lib.rs --out-dir "$1" "${@:2}" >>"$log" 2>&1; }

shim="$out/shim"; plain="$out/plain"; mkdir -p "$shim" "$plain"
if $R -O --crate-type rlib --crate-name core_shim shim.rs --out-dir "$shim" >>"$log" 2>&1 \
  && lib "$shim" --extern core="$shim/libcore_shim.rlib" \
  && $R -O --cfg shim --crate-name c29 main.rs --out-dir "$shim" -L "$shim" --extern core="$shim/libcore_shim.rlib" --extern dynamixel2="$shim/libdynamixel2.rlib" >>"$log" 2>&1; then
  "$shim/c29" "$@"; rc=$?
  [ $rc -ne 3 ] && exit $rc
  echo "the macro does not synchronise through core's atomics: using free races"
else
  echo "no build on the substituted core: using free races"
fi
if ! { lib "$plain" && $R --crate-name c29 main.rs --out-dir "$plain" -L "$plain" --extern dynamixel2="$plain/libdynamixel2.rlib" >>"$log" 2>&1; }; then
  grep -E '^error' -A 8 "$log" | head -60
  echo "BUILD FAILED for C29" >&2
  exit 2
fi
exec "$plain/c29" "$@"
