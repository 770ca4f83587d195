#!/bin/bash
# RUSTC_WRAPPER: instrument the crates whose schedules are explored, and link every executable of theirs against libsim.
# $1 is rustc.
name=""; bin=0; prev=""
for a in "$@"; do
    case "$prev" in --crate-name) name="$a";; --crate-type) [ "$a" = bin ] && bin=1;; esac
    prev="$a"
done
extra=()
case "$name" in
    ringhopper|invader|simdriver)
        extra+=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=16);;
esac
if [ $bin = 1 ]; then case "$name" in
    invader|simdriver) extra+=(-Clink-arg="$SIM_LIB" -Clink-arg=-Wl,-rpath,"$(dirname "$SIM_LIB")" -Clink-arg=-Wl,--no-as-needed);;
esac; fi
exec "$@" "${extra[@]}"
