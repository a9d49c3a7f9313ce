#!/bin/sh
# RUSTC_WRAPPER: builds the library and what it calls while reading and writing
# with coverage call-backs, which are the scheduler's finest pre-emption points.
rustc="$1"
shift
prev=
crate=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && crate="$a"
    prev="$a"
done
case "$crate" in
icalendar | nom | iso8601 | uuid | subject)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=4
    ;;
*) exec "$rustc" "$@" ;;
esac
