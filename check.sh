#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed n]: rebuilds the monitors with the library from
# /repo's working tree, and runs the check of one property.
# exit 0: held; 1: violated (with a VIOLATION line); anything else: no verdict
here="$(cd "$(dirname "$0")" && pwd)"
export LCMON_ROOT="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness" || exit 2
id="$1"
tier="${VERIF_TIER:-quick}"
for ((i = 1; i <= $#; i++)); do [ "${!i}" = --tier ] && { j=$((i + 1)); tier="${!j}"; }; done

# cargo decides by modification times; whatever /repo's are, what depends on it is built anew
fresh() {
  find "$1" -path '*/.fingerprint/*' -maxdepth 6 -type d \( -name 'lolcode*ast*' -o -name 'lcmon*' \) \
    -exec rm -rf {} + 2>/dev/null
}
log="$here/harness/target/build-$$.log"
mkdir -p "$here/harness/target" || exit 2
say() { sed -n '/^error/,$p' "$log" | tail -n 40 >&2; rm -f "$log"; }

fresh "$CARGO_TARGET_DIR"
if ! RUSTFLAGS="--cfg lolcode_verif" cargo build --offline --locked >"$log" 2>&1; then
  say; echo "$id: no verdict: the build failed" >&2; exit 2
fi

if [ "$id" = C01 ] || [ "$id" = C21 ]; then
  # as users debug it
  (
    export CARGO_TARGET_DIR="$here/harness/target/o0"
    fresh "$CARGO_TARGET_DIR"
    CARGO_PROFILE_DEV_OPT_LEVEL=0 RUSTFLAGS="--cfg lolcode_verif" cargo build --offline --locked >"$log.o0" 2>&1
  ) || { tail -n 20 "$log.o0" >&2; echo "$id: no verdict: the unoptimised build failed" >&2; exit 2; }
  export LCMON_O0="$here/harness/target/o0/debug/lcmon"
  rm -f "$log.o0"
fi

if [ "$id" = C22 ]; then
  host="$(rustc -vV | sed -n 's/^host: //p')"
  plain="--cfg lolcode_verif --cfg lcmon_plain"
  (
    export CARGO_TARGET_DIR="$here/harness/target/asan"
    fresh "$CARGO_TARGET_DIR"
    RUSTFLAGS="$plain -Zsanitizer=address" cargo +nightly build --offline --locked --target "$host" >"$log.asan" 2>&1
  ) &
  asan=$!
  (
    # the outcome of this first run does not matter, the check starts its own; it leaves the build
    export CARGO_TARGET_DIR="$here/harness/target/miri"
    fresh "$CARGO_TARGET_DIR"
    RUSTFLAGS="$plain" cargo +nightly miri run --offline --locked -- san 1 0 1 100 >"$log.miri" 2>&1
  ) &
  miri=$!
  (
    # ThreadSanitizer wants an instrumented standard library
    export CARGO_TARGET_DIR="$here/harness/target/tsan"
    fresh "$CARGO_TARGET_DIR"
    RUSTFLAGS="$plain -Zsanitizer=thread" \
      cargo +nightly build --offline --locked -Zbuild-std --target "$host" >"$log.tsan" 2>&1
  ) &
  tsan=$!
  wait $asan || { tail -n 20 "$log.asan" >&2; echo "C22: no verdict: the AddressSanitizer build failed" >&2; exit 2; }
  wait $tsan || { tail -n 20 "$log.tsan" >&2; echo "C22: no verdict: the ThreadSanitizer build failed" >&2; exit 2; }
  wait $miri
  export LCMON_ASAN="$here/harness/target/asan/$host/debug/lcmon"
  export LCMON_TSAN="$here/harness/target/tsan/$host/debug/lcmon"
  export LCMON_MIRI="RUSTFLAGS='$plain' CARGO_TARGET_DIR='$here/harness/target/miri' cargo +nightly miri run --offline --locked --quiet --manifest-path '$here/harness/Cargo.toml' --"
  rm -f "$log.asan" "$log.miri" "$log.tsan"
fi
rm -f "$log"
exec "$here/harness/target/debug/lcmon" check "$@"
