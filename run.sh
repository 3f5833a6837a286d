#!/bin/bash
# Usage: bash run.sh ID [quick|thorough]
#        bash run.sh ID --replay FILE
# Builds the harness against /repo's current working tree then runs a check.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset NO_COLOR CLICOLOR_FORCE CLICOLOR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export CARGO_TARGET_DIR="$VERIF_DIR/target"
mkdir -p "$VERIF_DIR/out" "$VERIF_DIR/evidence"
LOG="$VERIF_DIR/out/build-$$.log"
if ! cargo build --offline --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$LOG" 2>&1; then
    tail -n 60 "$LOG"
    rm -f "$LOG"
    echo "ERROR: the harness doesn't build against /repo"
    exit 2
fi
case "$1" in
C23 | C27)
    # the same program, with everything (std included) instrumented
    if ! RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR="$VERIF_DIR/target-tsan" \
        cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu \
        --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$LOG" 2>&1; then
        tail -n 60 "$LOG"
        rm -f "$LOG"
        echo "ERROR: the harness doesn't build with ThreadSanitizer"
        exit 2
    fi
    export MON_TSAN_EXE="$VERIF_DIR/target-tsan/x86_64-unknown-linux-gnu/debug/mon"
    ;;
esac
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/mon" "$@"
