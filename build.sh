#!/bin/bash
# usage: build.sh CRATE [flatc|asan|tsan|asyncstd|generic]   builds harness/CRATE against /repo's working tree
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=${VERIF_TARGET:-$ROOT/target}${2:+/$2} CARGO_INCREMENTAL=0
mkdir -p "$ROOT/out"
cd "$ROOT/harness/$1" || exit 1
ARGS= FLAGS="--cfg p2p_verif --cap-lints allow"
case "$2" in
  # flatbuffers 0.6 reads misaligned words, which a build with debug assertions turns into an abort
  flatc) ARGS="--no-default-features --features flatc" FLAGS="$FLAGS -C debug-assertions=off -C overflow-checks=on" ;;
  asyncstd|generic) ARGS="--no-default-features --features molc,$2" ;;
  asan) ARGS="--target x86_64-unknown-linux-gnu" FLAGS="$FLAGS -Zsanitizer=address" ;;
  tsan) ARGS="--target x86_64-unknown-linux-gnu -Zbuild-std" FLAGS="$FLAGS -Zsanitizer=thread" ;;
esac
case "$2" in asan|tsan)
  unset RUSTC_WRAPPER
  export RUSTUP_TOOLCHAIN=nightly ;;
esac
# cargo compares time stamps; a copied tree may carry any, so compare contents as well
SUM=$(cd /repo && git ls-files -co --exclude-standard -z -- '*.rs' '*.toml' '*.mol' '*.fbs' 2>/dev/null | sort -z | xargs -0 sha256sum 2>/dev/null | sha256sum | cut -c1-64)
STAMP=$CARGO_TARGET_DIR/stamp-$1
if [ "$(cat "$STAMP" 2>/dev/null)" != "$SUM" ]; then
  for p in tokio-yamux tentacle-secio tentacle-multiaddr tentacle px-ping px-identify px-discovery; do
    cargo clean --offline --quiet -p $p >/dev/null 2>&1
    [ -n "$2" ] && cargo clean --offline --quiet --target x86_64-unknown-linux-gnu -p $p >/dev/null 2>&1
  done
fi
LOG=$ROOT/out/build-$1${2:+-$2}.log
RUSTFLAGS="$FLAGS" cargo build --offline --quiet $ARGS 2>"$LOG" || {
  tail -40 "$LOG" >&2
  exit 1
}
echo "$SUM" > "$STAMP"
