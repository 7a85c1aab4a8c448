#!/bin/bash
# builds every harness crate once, so that the checks only rebuild what changed
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
ROOT=$PWD
for c in harness/hx-*; do
  [ "$c" = harness/hx-miri ] && continue
  ./build.sh "$(basename "$c")" || exit 1
done
for c in hx-secio hx-core hx-proto; do
  ./build.sh $c flatc || exit 1
done
for v in asan tsan asyncstd generic; do
  ./build.sh hx-tentacle $v || exit 1
done
# the programs that run under Miri; C03 says so when this is missing
. /opt/vp/env.sh >/dev/null 2>&1
unset RUSTC_WRAPPER RUSTFLAGS
cd harness/hx-miri && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=${VERIF_TARGET:-$ROOT/target}/miri MIRIFLAGS=-Zmiri-seed=1 \
  cargo miri run --offline -q >/dev/null 2>"$ROOT/out/build-hx-miri.log"
exit 0
