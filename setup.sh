#!/bin/bash
# Builds everything once, so that each check only has to rebuild the code under test and its own monitor.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
mkdir -p "$HERE/out" "$HERE/evidence"
for profile in dev plain; do
    cd "$HERE/harness" || exit 1
    cargo build --offline --locked --profile $profile --bins || exit 1
    ( cd /repo && . "$HERE/bins.sh" $profile && cargo build --offline --profile $profile --bins ) || exit 1
done
# (a sanitizer build that fails here is reported by the check of C34)
bash "$HERE/sanitize.sh" thread > "$HERE/out/setup-thread.log" 2>&1
bash "$HERE/sanitize.sh" address > "$HERE/out/setup-address.log" 2>&1
bash "$HERE/sanitize.sh" memory > "$HERE/out/setup-memory.log" 2>&1
true
