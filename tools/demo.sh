#!/bin/bash
# Builds demo.rs, which lies beside this file, against the crate in the current
# directory and runs it. Everything it makes is in one scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/tmp/icalendar-demo-target TZ=UTC
unset RUSTFLAGS RUSTC_WRAPPER
s=/tmp/icalendar-demo-src
rm -rf /tmp/icalendar-demo-src
mkdir -p $s || exit 3
cp -r src examples README.md Cargo.toml $s/ || exit 3
if [ -e Cargo.lock ]; then cp Cargo.lock $s/; else cp /opt/vp/Cargo.lock $s/; fi
cp "$here/demo.rs" $s/examples/zz_demo.rs || exit 3
cd $s || exit 3
touch src/lib.rs
cargo build -q --offline --all-features --example zz_demo >build.log 2>&1 || { tail -40 build.log; exit 3; }
cd /tmp
timeout 120 /tmp/icalendar-demo-target/debug/examples/zz_demo
rc=$?
rm -rf /tmp/icalendar-demo-src
exit $rc
