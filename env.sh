# Sourced by setup.sh and check.sh.
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LOG
HERE=${HERE:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export CARGO_TARGET_DIR="$HERE/target"
