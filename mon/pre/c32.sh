# The thorough tier adds memory-error detection: the crate's one unsafe block is in its device code.
if [ "$tier" = thorough ]; then
    . pre/san.sh
    export MON_DEADLINE=420
    miri devmiri
    san address c32
fi
