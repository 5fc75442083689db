#!/bin/bash
# Builds the harness against /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/work/target"
mkdir -p work
(
  flock 9
  python3 overlay.py || exit 3
  cargo build --offline --manifest-path harness/Cargo.toml 2>work/build.log || { grep -A14 '^error' work/build.log >&2; exit 3; }
) 9>work/lock
