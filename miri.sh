#!/bin/bash
# miri.sh ARG... -- runs sandriver under Miri
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="--cap-lints=warn" MIRIFLAGS="-Zmiri-disable-isolation"
export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" XDG_CACHE_HOME="$CARGO_TARGET_DIR/miri/cache"
cd "$HERE/harness" && exec cargo miri run --offline --locked --bin sandriver -- "$@"
