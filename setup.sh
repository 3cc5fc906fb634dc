#!/bin/bash
# Builds everything once; the checks then only rebuild what has changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build
python3 rig/gen.py || exit 2
cd build/ws || exit 2
cargo build --offline -q $(awk '{ print "-p h-" $2 }' ../../areas.txt | sort -u)
