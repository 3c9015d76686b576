#!/bin/bash
# Compiler wrapper that adds coverage instrumentation to the crate `rescan`.
rustc=$1
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = rescan ]; then
        exec "$rustc" "$@" -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-compares
    fi
    prev=$a
done
exec "$rustc" "$@"
