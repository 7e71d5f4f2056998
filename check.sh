#!/bin/bash
# usage: check.sh ID    (VERIF_TIER=quick or thorough, VERIF_SEED)
# exit 0: the property held on everything explored; 1: VIOLATION; 3: the machinery failed
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property}
if [ "${VERIF_TIER:-quick}" = thorough ]; then
    # the same exploration of the code as it is in a release build (wrapping arithmetic)
    "$V/build.sh" plain || exit 3
    OUT=$(MC_BIN="$V/target/cli/release" "$V/harness/target/plain/mc" check "$ID")
    rc=$?
    if [ $rc -ne 0 ]; then
        echo "$OUT"
        exit $rc
    fi
    export MC_NOTE="without overflow checks: $(echo "$OUT" | tail -n 1)"
fi
"$V/build.sh" release || exit 3
exec "$V/harness/target/release/mc" check "$ID"
