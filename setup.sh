#!/bin/bash
# Builds every check once (offline). Checks rebuild what changed by themselves.
. "$(dirname "$0")/env.sh"
set -e
# C26 and C27 (meanwhile): the program for the machine and for the interpreter, per target
(
  export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/ub" XDG_CACHE_HOME="$CARGO_TARGET_DIR/interp"
  cargo build --release --offline --quiet --locked --manifest-path "$VERIF_DIR/checks_ub/Cargo.toml"
  for t in x86_64 i686 s390x; do
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Awarnings cargo miri run --release --offline --quiet --locked \
      --target $t-unknown-linux-gnu --manifest-path "$VERIF_DIR/checks_ub/Cargo.toml" -- ready > "$CARGO_TARGET_DIR/setup-$t.log" 2>&1 || true
  done
) &
interpreter=$!
for c in checks checks_io checks_cfg; do
  [ -f "$VERIF_DIR/$c/Cargo.toml" ] || continue
  cargo build --release --offline --quiet --locked --manifest-path "$VERIF_DIR/$c/Cargo.toml" --bins
done
# the crates that C19's programs are linked with
for r in "" --release; do
  CARGO_TARGET_DIR="$CARGO_TARGET_DIR/lits" cargo build $r --offline --quiet --locked --manifest-path "$VERIF_DIR/lits/Cargo.toml"
done
# C29 has its own build, with counters
bash "$VERIF_DIR/check.sh" C29 --build
# C25 keeps one target directory per set of integrations: compile the dependencies once
mkdir -p "$CARGO_TARGET_DIR/feat"
"$CARGO_TARGET_DIR/release/c25" --tier quick > "$CARGO_TARGET_DIR/feat/setup.log" 2>&1 || true
wait $interpreter
