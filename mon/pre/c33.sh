# The thorough tier adds race detection.
if [ "$tier" = thorough ]; then
    . pre/san.sh
    export MON_DEADLINE=420
    miri devmiri
    san thread c33
fi
