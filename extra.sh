#!/bin/bash
# One more worker of the C11 monitor, under another tool. $1: which.
cd "$VERIF_DIR/harness" || exit 4
T=x86_64-unknown-linux-gnu
# The first three workers beside the sanitised ones run in Miri; in the thorough tier the last two
# run under MemorySanitizer and ThreadSanitizer with an instrumented standard library.
K=$((MON_SHARD - MON_NSHARDS))
if [ "$K" -ge 6 ]; then
  if [ "$K" = 6 ]; then S=memory; else S=thread; fi
  export MON_PREFIX="$S sanitizer: "
  export MSAN_OPTIONS=exitcode=77 TSAN_OPTIONS="exitcode=77 halt_on_error=1"
  exec env RUSTFLAGS="-Zsanitizer=$S" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/$S" \
    cargo +nightly run --offline -q -Zbuild-std --target $T -p codec -- C11
fi
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"
exec env CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" cargo +nightly miri run --offline -q -p codec -- C11
