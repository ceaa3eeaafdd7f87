#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--replay FILE]
# Builds the check of one property against /repo's working tree and runs it.
# Exit 0: held; 1: violated (VIOLATION line); anything else: error of the check itself.
. "$(dirname "$0")/env.sh"
prop=$1; shift
bin=$(echo "$prop" | tr 'C' 'c')
crate=checks
for c in checks_io checks_cfg checks_steps; do
  [ -f "$VERIF_DIR/$c/src/bin/$bin.rs" ] && crate=$c
done
out=$CARGO_TARGET_DIR/release
target=
if [ $crate = checks_steps ]; then
  # with a counter at every edge between basic blocks
  export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/steps
  export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
  target="--target x86_64-unknown-linux-gnu"
  out=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release
  mkdir -p "$CARGO_TARGET_DIR"
fi
build() {
  cargo build $target --release --offline --quiet --locked --manifest-path "$VERIF_DIR/$crate/Cargo.toml" --bin "$bin"
}
if ! build 2>"$CARGO_TARGET_DIR/$bin.build.log"; then
  cat "$CARGO_TARGET_DIR/$bin.build.log" >&2
  echo "error of the check: $prop does not build" >&2
  exit 2
fi
[ "$1" = --build ] && exit 0
exec "$out/$bin" "$@"
