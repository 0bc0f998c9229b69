#!/bin/bash
# ./check.sh C01 quick|thorough : builds the monitor of one property against /repo and runs it.
cd "$(dirname "$0")/mon" || exit 2
prop="$1"; tier="${2:-quick}"
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
export VERIF_TIER="$tier"
export VERIF_DIR="${VERIF_DIR:-$(cd .. && pwd)}"
export CARGO_TARGET_DIR="${MON_TARGET:-$PWD/../target}"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --locked --release --quiet --bin "$bin" >"$CARGO_TARGET_DIR/build-$bin.log" 2>&1; then
    tail -n 40 "$CARGO_TARGET_DIR/build-$bin.log"
    echo "BUILD-FAILED property=$prop"
    exit 2
fi
if [ -x "pre/$bin.sh" ]; then . "pre/$bin.sh"; fi
"$CARGO_TARGET_DIR/release/$bin" "$tier"
rc=$?
# The monitors catch panics; a process killed by SIGABRT, SIGSEGV, SIGBUS or SIGILL means that the code
# under test overflowed the stack, aborted or corrupted memory.
case $rc in
    132|134|135|139)
        mkdir -p "$VERIF_DIR/replay"
        out="$VERIF_DIR/replay/$prop-crash.txt"
        printf 'property: %s\nwhat: the process running the code under test died with status %s\nreplay: VERIF_SEED=%s ./check.sh %s %s\n' "$prop" "$rc" "${VERIF_SEED:-1}" "$prop" "$tier" >"$out"
        echo "VIOLATION property=$prop replay=$out"
        exit 1 ;;
esac
exit $rc
