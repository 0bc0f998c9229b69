# san KIND BIN : the thorough tier runs the quick workload once more in a build with a compiler sanitizer.
# The sanitizer's report (exit status 86) is a violation; so is one by the monitor itself. What cannot be
# built or finished here gives a note and no verdict.
san() {
    local kind="$1" bin="$2" dir="$CARGO_TARGET_DIR/san-$1" extra="" rc
    [ "$kind" = thread ] && extra="-Zbuild-std"
    mkdir -p "$dir/v/evidence"
    cp "$VERIF_DIR/known_findings.txt" "$dir/v/"
    if ! CARGO_TARGET_DIR="$dir" RUSTFLAGS="-Zsanitizer=$kind" cargo +nightly build $extra --offline --locked --release --quiet \
            --target x86_64-unknown-linux-gnu --bin "$bin" >"$dir/build-$bin.log" 2>&1; then
        echo "NOTE: the $kind sanitizer build is not available here"
        export MON_NOTES="$MON_NOTES;$kind sanitizer: not built"
        return
    fi
    ASAN_OPTIONS="exitcode=86 detect_leaks=0" TSAN_OPTIONS="exitcode=86 halt_on_error=1" VERIF_TIER=quick VERIF_DIR="$dir/v" \
        timeout 300 "$dir/x86_64-unknown-linux-gnu/release/$bin" quick >"$dir/$bin.log" 2>&1
    rc=$?
    grep -v '^VIOLATION' "$dir/$bin.log" | tail -n 30
    case $rc in
        0) export MON_NOTES="$MON_NOTES;$kind sanitizer: $(grep -o "^$prop: [0-9]* evaluations" "$dir/$bin.log"), no report" ;;
        1|86|132|134|135|139)
            mkdir -p "$VERIF_DIR/replay"
            cp "$dir/$bin.log" "$VERIF_DIR/replay/$prop-$kind-sanitizer.txt"
            echo "VIOLATION property=$prop replay=$VERIF_DIR/replay/$prop-$kind-sanitizer.txt"
            exit 1 ;;
        *) export MON_NOTES="$MON_NOTES;$kind sanitizer: no verdict (status $rc)" ;;
    esac
}
# miri BIN : a small program under the undefined-behaviour interpreter.
miri() {
    local bin="$1" dir="$CARGO_TARGET_DIR/miri" rc
    mkdir -p "$dir"
    CARGO_TARGET_DIR="$dir" MIRIFLAGS="-Zmiri-many-seeds=0..8" timeout 300 cargo +nightly miri run --offline --locked --quiet --bin "$bin" >"$dir/$bin.log" 2>&1
    rc=$?
    if [ $rc = 0 ]; then
        export MON_NOTES="$MON_NOTES;miri: $(tail -n 1 "$dir/$bin.log"), no report"
    elif grep -q 'Undefined Behavior\|Data race\|deadlock\|panicked' "$dir/$bin.log"; then
        mkdir -p "$VERIF_DIR/replay"
        cp "$dir/$bin.log" "$VERIF_DIR/replay/$prop-miri.txt"
        echo "VIOLATION property=$prop replay=$VERIF_DIR/replay/$prop-miri.txt"
        exit 1
    else
        echo "NOTE: miri gave no verdict (status $rc)"
        export MON_NOTES="$MON_NOTES;miri: no verdict (status $rc)"
    fi
}
