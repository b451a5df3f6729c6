#!/bin/bash
# check.sh <PROPERTY> quick|thorough   run the monitors of one property against /repo's working tree
# check.sh replay FILE                 re-run a recorded violation
# check.sh build                       build the harness only (setup)
# Exit 0: held on everything explored; 1: "VIOLATION property=<id> replay=<path>"; 2: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
unset RUST_LOG RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN RUSTC_WRAPPER
H=$V/harness
T=$H/target
X=x86_64-unknown-linux-gnu

# a compiled copy is only trusted for exactly the sources it was built from
stamp() { (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; find "$H/src" "$H/Cargo.toml" "$H/corpus" -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; rustc +nightly -V) | sha256sum | cut -d' ' -f1; }

# build TARGETDIR COMMAND...   (serialised: two checks may share the directory)
build() {
  local dir=$1; shift
  mkdir -p "$dir"
  exec 9>"$dir/.lock"; flock 9
  local s; s=$(stamp)
  if [ "$(cat "$dir/.stamp" 2>/dev/null)" != "$s" ]; then
    # cargo goes by file times, which a copied or restored tree may not move forward
    rm -f "$dir/.stamp"
    find "$dir" -depth -maxdepth 5 -path '*/.fingerprint/*' \( -name 'tomllib-*' -o -name 'vmon-*' \) -exec rm -r {} + 2>/dev/null
    if ! "$@" >"$dir/build.log" 2>&1; then
      echo "check.sh: building in $dir failed:" >&2; grep -E '^error' -A8 "$dir/build.log" | head -60 >&2; tail -5 "$dir/build.log" >&2
      exec 9>&-; return 1
    fi
    echo "$s" >"$dir/.stamp"
  fi
  exec 9>&-
}
build_main() { build "$T" cargo build --offline --manifest-path "$H/Cargo.toml" --target-dir "$T"; }
build_kit() { build "$H/target-kit" env CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_INCREMENTAL=0 cargo build --offline --manifest-path /repo/Cargo.toml --bin tomlkit --target-dir "$H/target-kit"; }
build_asan() { build "$H/target-asan" env RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --manifest-path "$H/Cargo.toml" --target $X --target-dir "$H/target-asan"; }
build_tsan() { build "$H/target-tsan" env RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --offline -Zbuild-std --manifest-path "$H/Cargo.toml" --target $X --target-dir "$H/target-tsan"; }

# instrumented NAME SCALE STAGES -- run a share of the stages in a sanitizer build first
instrumented() {
  local name=$1 scale=$2 stages=$3
  if ! "build_$name"; then echo "check.sh: no $name build, that pass is skipped" >&2; return 0; fi
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 TSAN_OPTIONS=halt_on_error=1:abort_on_error=1
  mkdir -p "$V/evidence"
  SIDE=$V/evidence/.$id.$name
  rm -f "$SIDE"
  VMON_SIDE_OUT=$SIDE VMON_BUILD="-Zsanitizer=$name" VMON_SCALE=$scale VMON_STAGES=$stages "$H/target-$name/$X/debug/vmon" run "$id" "$tier"
}

case "${1:-}" in
  build) build_main && build_kit || exit 2; exit 0 ;;
  replay) build_main && build_kit || exit 2; exec "$T/debug/vmon" replay "$2" ;;
esac
id=${1:?property}; tier=${2:-quick}
case "$tier" in quick|thorough) ;; *) echo "tier is quick or thorough" >&2; exit 2 ;; esac
build_main || exit 2
unset VMON_SCALE VMON_STAGES VMON_SIDE_OUT VMON_SIDE_IN
SIDE=
case "$id" in
  C02) instrumented asan 0.02 "corpus,any,deep,wide,small,pieces,constructors,calls" || exit $? ;;
  C23) instrumented tsan 0.05 "threads" || exit $? ;;
  C20|C21|C22) build_kit || exit 2; export VMON_TOMLKIT=$H/target-kit/debug/tomlkit ;;
esac
if [ -n "$SIDE" ]; then export VMON_SIDE_IN=$SIDE; fi
exec "$T/debug/vmon" run "$id" "$tier"
