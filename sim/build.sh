#!/bin/bash
# Builds the simulator and the scenarios against /repo's working tree. Quiet unless it fails.
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../target" RUSTC_WRAPPER="$PWD/../wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
out=$(cargo +nightly build --release --offline 2>&1) || {
  first=$out
  # the list is private: should its interface have changed, everything else can still be decided
  out=$(cargo +nightly build --release --offline --no-default-features 2>&1) || { echo "$first" >&2; echo "$out" >&2; echo "ERROR: build failed" >&2; exit 2; }
  echo "note: the growth list's interface has changed, its scenario is left out" >&2
}
[ -n "${SIM_VERBOSE:-}" ] && echo "$out"
exit 0
