#!/bin/bash
# check.sh <property>: builds against /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec sim/target/x86_64-unknown-linux-gnu/release/icalsim check "$1"
