#!/bin/bash
# check.sh ID  -- build what the check of property ID needs from /repo's working tree, then run it:
# first a shorter pass over a plain build (as users install it: no debug assertions, no overflow
# checks), then the full pass with both on.
# Exit 0: held; 1: violated (VIOLATION line); anything else: no verdict.
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p "$HERE/out"
log="$HERE/out/build-$ID.log"
: >"$log"
needs() { grep -qs "^// needs: $1" "$HERE/harness/src/bin/$bin.rs"; }
# build PROFILE
build() {
    cd "$HERE/harness" || return 2
    # never trust timestamps: the code under test is always recompiled
    cargo clean --offline --profile "$1" -p fbas_analyzer >>"$log" 2>&1
    cargo build --offline --locked --profile "$1" --bin "$bin" >>"$log" 2>&1 || return 2
    if needs repo-binaries; then
        repo_bins "$1" >>"$log" 2>&1 || return 2
    fi
    if needs faults; then
        faults >>"$log" 2>&1 || return 2
    fi
    if needs sanitizers; then
        bash "$HERE/sanitize.sh" thread >>"$log" 2>&1 || return 2
        bash "$HERE/sanitize.sh" address >>"$log" 2>&1 || return 2
        bash "$HERE/sanitize.sh" memory >>"$log" 2>&1 || return 2
        if [ "$VERIF_TIER" = thorough ]; then
            bash "$HERE/sanitize.sh" miri >>"$log" 2>&1 || return 2
            export VERIF_MIRI="$HERE/miri.sh"
        fi
    fi
}
repo_bins() (
    cd /repo || return 2
    . "$HERE/bins.sh" "$1"
    cargo clean --offline --profile "$profile" -p fbas_analyzer
    cargo build --offline --profile "$profile" --bins
)
faults() {
    gcc -O1 -w -shared -fPIC -o "$CARGO_TARGET_DIR/faults.so.new" "$HERE/harness/shim/faults.c" -ldl &&
        mv "$CARGO_TARGET_DIR/faults.so.new" "$CARGO_TARGET_DIR/faults.so"
}
# scratch files of this run, removed with it
TMPDIR=$(mktemp -d "${TMPDIR:-/tmp}/verif-$bin-XXXXXX") || exit 2
export TMPDIR
trap 'rm -rf "$TMPDIR"' EXIT
# pass PROFILE DIR
pass() {
    if ! build "$1"; then
        tail -40 "$log"
        echo "INCONCLUSIVE property=$ID the harness does not build"
        exit 2
    fi
    cd "$HERE" || exit 2
    export VERIF_ROOT="$HERE" VERIF_SAN="$CARGO_TARGET_DIR" VERIF_BINS="$CARGO_TARGET_DIR/bins/$2" VERIF_FAULTS="$CARGO_TARGET_DIR/faults.so"
    "$CARGO_TARGET_DIR/$3/$bin" 2>"$HERE/out/stderr-$ID.log"
    rc=$?
    case $rc in
        0) ;;
        1|2) exit $rc ;;
        132|134|135|139)
            # killed by its own fault (abort, illegal instruction, bad access): not a harness timeout
            tail -5 "$HERE/out/stderr-$ID.log"
            mkdir -p "$HERE/out/replay"
            r="$HERE/out/replay/$ID-crash.txt"
            { echo "property $ID seed ${VERIF_SEED:-1} tier ${VERIF_TIER:-quick} pass $1: process died with status $rc";
              tail -20 "$HERE/out/stderr-$ID.log"; echo "cases in flight:"; cat "$HERE/out/inflight-$ID" 2>/dev/null; } >"$r"
            echo "VIOLATION property=$ID replay=$r"
            exit 1 ;;
        *) echo "INCONCLUSIVE property=$ID ended with status $rc"; exit 2 ;;
    esac
}
rm -f "$HERE/out/plain-$ID.json"
# (the sanitizers have builds of their own)
needs sanitizers && VERIF_PASS=
if ! needs sanitizers && { [ -z "$VERIF_REPLAY" ] || [ "$VERIF_PASS" = plain ]; }; then
    VERIF_PASS=plain pass plain release plain
fi
if [ -z "$VERIF_REPLAY" ] || [ "$VERIF_PASS" != plain ]; then
    unset VERIF_PASS
    pass dev debug debug
fi
