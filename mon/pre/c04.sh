# The unoptimised build of the same program, as users run it while developing.
if ! cargo build --offline --locked --quiet --bin c04 >"$CARGO_TARGET_DIR/build-c04-dev.log" 2>&1; then
    tail -n 40 "$CARGO_TARGET_DIR/build-c04-dev.log"
    echo "BUILD-FAILED property=$prop (dev profile)"
    exit 2
fi
export C04_DEV="$CARGO_TARGET_DIR/debug/c04"
