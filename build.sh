#!/bin/bash
# Builds the simulator together with the code under test from /repo's working tree.
# Offline; writes only below /verif/target (ignored by git).
cd "$(dirname "$0")/sim" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="${LSIM_TARGET:-$PWD/../target}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" || exit 2
if ! { cargo build --offline --quiet --bin lsim && cargo build --offline --quiet --profile plain --bin lsim; } >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  grep -A12 '^error' "$CARGO_TARGET_DIR/build.log" >&2 || tail -20 "$CARGO_TARGET_DIR/build.log" >&2
  echo "BUILD-FAILED: the simulator does not build against /repo's working tree" >&2
  exit 2
fi
