#!/bin/bash
# Usage: check.sh <property>
# Builds the monitors from /repo's current working tree and runs the one for the property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/target}"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
ID="$1"
case "$ID" in
  C*) BIN=codec ;;
  *) BIN=idl ;;
esac
LOG="$(mktemp)"
if [ "$ID" = C11 ]; then
  # The same monitor, instrumented with AddressSanitizer; Miri runs beside it.
  T=x86_64-unknown-linux-gnu
  if ! (cd "$VERIF_DIR/harness" && RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/asan" \
        cargo +nightly build --offline -q --target $T -p codec) >"$LOG" 2>&1; then
    cat "$LOG" >&2
    rm -f "$LOG"
    echo "the instrumented monitor does not build: no verdict" >&2
    exit 4
  fi
  rm -f "$LOG"
  export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=77
  export MON_EXTRA_N=6
  [ "${VERIF_TIER:-quick}" = thorough ] && export MON_EXTRA_N=8
  export MON_EXTRA_CMD='exec bash "$VERIF_DIR/extra.sh"'
  exec "$CARGO_TARGET_DIR/asan/$T/debug/codec" C11
fi
if ! (cd "$VERIF_DIR/harness" && cargo build --offline -q -p "$BIN") >"$LOG" 2>&1; then
  cat "$LOG" >&2
  rm -f "$LOG"
  echo "the monitor does not build: no verdict" >&2
  exit 4
fi
case "$ID" in
  G05|G06|G07|G12|D*)
    # The runtime crates that generated code is compiled against, and where cargo put them.
    export RT_JSON="$CARGO_TARGET_DIR/rt-$ID.json"
    if ! (cd "$VERIF_DIR/harness" && cargo build --offline -q -p rt --message-format=json) >"$RT_JSON" 2>"$LOG"; then
      cat "$LOG" >&2
      rm -f "$LOG"
      echo "the runtime crates do not build: no verdict" >&2
      exit 4
    fi ;;
  G10)
    if ! cargo build --offline -q --manifest-path /repo/Cargo.toml -p rpcgen --bin rpcgen --target-dir "$CARGO_TARGET_DIR/repo" >"$LOG" 2>&1; then
      cat "$LOG" >&2
      rm -f "$LOG"
      echo "the command does not build: no verdict" >&2
      exit 4
    fi
    export RPCGEN_BIN="$CARGO_TARGET_DIR/repo/debug/rpcgen" ;;
esac
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/$BIN" "$ID"
