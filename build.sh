#!/bin/bash
# Builds the simulator together with /repo's current working tree (offline).
# The library is rebuilt whenever the text of its sources differs from the text
# that was built last, whatever the files' time stamps say.
set -u
cd "$(dirname "$0")/sim" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WORKSPACE_WRAPPER
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
mkdir -p target
exec 9>target/.build-lock
flock 9
stamp=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$stamp" != "$(cat target/.built 2>/dev/null)" ]; then
    rm -f "$PWD/target/.built"
    cargo clean --offline --release -p icalendar >/dev/null 2>&1
fi
cargo build --offline --release >target/build.log 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    tail -60 target/build.log
    echo "build of the simulator against /repo failed"
    exit 2
fi
echo "$stamp" >target/.built
