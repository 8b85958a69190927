#!/bin/bash
# sanitize.sh thread|address|memory|miri -- builds sandriver and the tools of /repo's working tree under a sanitizer
# (nightly compiler; ThreadSanitizer and MemorySanitizer with a standard library built for them) into
# target/thread, target/address, target/memory;
# for Miri it only has the driver interpreted once, so that later runs find everything built.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
if [ "$1" = miri ]; then
    exec bash "$HERE/miri.sh" 1 0 0
fi
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$CARGO_TARGET_DIR/$1"
target=x86_64-unknown-linux-gnu
how="--offline --profile plain --target $target"
if [ "$1" != address ]; then
    export RUSTFLAGS="-Zsanitizer=$1 -Cunsafe-allow-abi-mismatch=sanitizer --cap-lints=warn"
    how="$how -Zbuild-std"
else
    export RUSTFLAGS="-Zsanitizer=address --cap-lints=warn"
fi
cd "$HERE/harness" || exit 2
cargo clean --offline --profile plain --target $target -p fbas_analyzer
cargo build $how --locked --bin sandriver || exit 2
cd /repo || exit 2
cargo build $how --config "$HERE/harness/san.toml" --bins || exit 2
