#!/bin/bash
# Instruments only the liso crate with edge callbacks: every edge is a
# possible scheduling point and a coverage point of the simulation.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = liso ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Ccodegen-units=1
  fi
  prev="$a"
done
exec "$rustc" "$@"
