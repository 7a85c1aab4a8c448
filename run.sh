#!/bin/bash
# usage: run.sh PROPERTY [--case N]   (environment: VERIF_SEED, VERIF_TIER)
# Builds the harness that decides PROPERTY against /repo's working tree and runs it.
# exit 0 held, 1 violated (VIOLATION line), 2 no answer.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
ulimit -c 0
ID=$1
case "$ID" in
  Y*) CRATE=hx-yamux ;;
  S*) CRATE=hx-secio ;;
  M*) CRATE=hx-multiaddr ;;
  C*) CRATE=hx-chan ;;
  N*) CRATE=hx-core ;;
  T*|R*) CRATE=hx-tentacle ;;
  P*) CRATE=hx-proto ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
TARGET=${VERIF_TARGET:-$ROOT/target}
build() {
  "$ROOT/build.sh" "$@" || {
    echo "no answer: $* does not build" >&2
    exit 2
  }
}
RC=0
case "$ID" in S02|S04|S06|S08|N01|P0*)
  # the messages have a second encoding, chosen when the library is compiled
  if [ -z "$2" ] || [ "$VERIF_VARIANT" = flatc ]; then
    build "$CRATE" flatc
    BEFORE=$ROOT/out/$ID-flatc.txt
    [ "$VERIF_TIER" = quick ] && SHORT=VERIF_BUDGET_S=10
    env $SHORT VERIF_VARIANT=flatc "$TARGET/flatc/debug/$CRATE" "$@" > "$BEFORE"
    RC=$?
    cat "$BEFORE"
    { [ $RC = 1 ] || [ -n "$2" ]; } && exit $RC
    export VERIF_BEFORE=$BEFORE
  fi ;;
T19)
  build hx-tentacle asan
  build hx-tentacle tsan
  export VERIF_ASAN=$TARGET/asan/x86_64-unknown-linux-gnu/debug/hx-tentacle
  export VERIF_TSAN=$TARGET/tsan/x86_64-unknown-linux-gnu/debug/hx-tentacle ;;
R0*)
  # the library compiled for another runtime or timer
  V=asyncstd
  [ "$ID" = R02 ] && V=generic
  build hx-tentacle $V
  exec "$TARGET/$V/debug/$CRATE" "$@" ;;
esac
build "$CRATE"
unset VERIF_VARIANT
"$TARGET/debug/$CRATE" "$@"
MAIN=$?
[ $MAIN = 0 ] && exit $RC
exit $MAIN
