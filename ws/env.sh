# Sourced by every check: same toolchain and offline settings as /opt/vp, own target directory.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.94-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF VERIF_WS=$VERIF/build/ws CARGO_TARGET_DIR=${VERIF_TARGET:-$VERIF/build/target}
