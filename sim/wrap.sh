#!/bin/bash
# RUSTC_WRAPPER: instruments the repository's crates and the scenarios, nothing else.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  numeric|numeric_*|scen)
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Zshare-generics=n -Cllvm-args=-tsan-instrument-func-entry-exit=0 --cfg numeric_sim -Awarnings ;;
  *) exec "$rustc" "$@" ;;
esac
