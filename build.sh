#!/bin/bash
# Build against /repo's working tree. Usage: build.sh [PROPERTY]
# C05 has a program of its own, with a thread pool whose schedules are
# enumerated; harness/ decides the others. Without argument, both.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTFLAGS="--cfg libopenraw_verif -Awarnings" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
if [ "$1" != C05 ]; then
  (cd "$here/harness" && cargo build --release --offline --target-dir ../target -q) || exit 1
fi
if [ -z "$1" ] || [ "$1" = C05 ]; then
  (cd "$here/par" && cargo build --release --offline --target-dir ../target/par -q) || exit 1
fi
