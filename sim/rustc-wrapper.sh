#!/bin/bash
# Compiles the crates under test (and the glue crate that instantiates their generics) with ThreadSanitizer's
# instrumentation, so that every memory access in them calls into simrt; everything else is compiled normally.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  fraos|indexed_log_map|multiverse|dcspark_core|simglue|instr_*)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cfg dst ;;
  ""|build_script_*|___) exec "$rustc" "$@" ;;
  *)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
