#!/bin/bash
# check.sh ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
# check.sh ID --replay F replay a recorded case
# check.sh build         build everything (setup)
# Exit 0: property held; 1: VIOLATION line printed; anything else: error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export VH_VERIF="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p "$here/target" "$here/evidence" "$here/replays"

# one run at a time: they share a target directory
exec 9>"$here/target/.lock"
flock 9

# cargo goes by file times; go by contents, so that no stale build can pass for the current tree
stamp="$(find /repo/ethabi /repo/derive /repo/contract /repo/cli "$here/harness" "$here/cli" -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$here/target/.stamp" 2>/dev/null)" != "$stamp" ]; then
  for d in ethabi vh; do
    rm -rf "$here/target/release/.fingerprint/$d"-*
  done
  echo "$stamp" >"$here/target/.stamp"
fi

build() { # manifest, extra args
  local log="$here/target/build.log"
  if ! cargo build --offline --locked --release --manifest-path "$1" --target-dir "$here/target" "${@:2}" >"$log" 2>&1; then
    echo "build of $1 failed:" >&2
    grep -E '^error' -A 12 "$log" | head -60 >&2
    return 1
  fi
}

id="$1"
case "$id" in
  build)
    build harness/Cargo.toml || exit 2
    [ -f cli/Cargo.toml ] && { build cli/Cargo.toml || exit 2; }
    "$here/target/release/vh" prepare || exit 2
    exit 0 ;;
  C22|C23) build cli/Cargo.toml || exit 2 ;;
esac
build harness/Cargo.toml || exit 2
if [ "$2" = "--replay" ]; then
  exec "$here/target/release/vh" replay "$3"
fi
if [ "$VERIF_TIER" != thorough ]; then
  exec "$here/target/release/vh" run "$id"
fi
"$here/target/release/vh" run "$id" || exit $?
case "$id" in C05|C22|C23|C24|C25) exit 0 ;; esac  # need their own process, allocator or compiler run per case
if cargo +nightly fuzz build --fuzz-dir "$here/fuzz" --sanitizer none --target-dir "$here/target/fuzz" >"$here/target/fuzz.log" 2>&1; then
  exec "$here/target/release/vh" fuzz "$id" "$here/target/fuzz/x86_64-unknown-linux-gnu/release/choices"
fi
echo "coverage-guided stage not available here: $(tail -n 1 "$here/target/fuzz.log")" >&2
exit 0
