# Sourced by every script: fixed toolchain, no network, build output under /verif/target.
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export RUSTUP_TOOLCHAIN=1.90.0 RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never NO_COLOR=1 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$VERIF_DIR/target
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/evidence"
