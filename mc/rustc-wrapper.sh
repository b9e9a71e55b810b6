#!/bin/bash
# Compiles metrix and the crate instantiating its generics with LLVM's
# ThreadSanitizer *instrumentation pass* (no sanitizer runtime): every atomic
# operation becomes a call to mcrt, i.e. a scheduling point.
rustc="$1"; shift
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); n="${!j}"; break; fi
done
case "$n" in
  metrix|inst) exec "$rustc" "$@" -Cpasses=tsan ;;
  *) exec "$rustc" "$@" ;;
esac
