export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export VERIF_DIR="${VERIF_DIR:-/verif}"
export BUILD="$VERIF_DIR/.build"
