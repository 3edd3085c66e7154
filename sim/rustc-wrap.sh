#!/bin/bash
# Adds a call at every control-flow edge of the crates under simulation.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
steit|schemas)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
