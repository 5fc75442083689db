#!/bin/bash
# Compiles demo.rs against the library build.sh made, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
deps=/repo/target/debug/deps
lib=$(ls -t $deps/librinex-*.rlib | head -1)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 3
rustc --edition 2021 -A warnings -L dependency=$deps --extern rinex="$lib" "$here/demo.rs" -o demo || exit 3
./demo
