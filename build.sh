#!/bin/bash
# Builds everything the checks run from /repo's current working tree: the two programs, the harness, the tracer.
# usage: build.sh [PROFILE]    PROFILE: release (with overflow checks, the programs in the dev profile; the default)
#                              or plain (without, the programs in the release profile)
set -u
V=$(cd "$(dirname "$0")" && pwd)
PROFILE=${1:-release}
mkdir -p "$V/target"
exec 9>"$V/target/lock"
flock 9
# What is built is decided by content, not by times: a checkout may give changed files old times.
stamp() {
    {
        rustc --version
        cd /repo && find . -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
        cd "$V" && find harness/src harness/Cargo.toml harness/Cargo.lock tracer build.sh -type f -print0 | sort -z | xargs -0 sha256sum
    } | sha256sum | cut -d' ' -f1
}
CLI=debug
FLAGS=()
if [ "$PROFILE" = plain ]; then
    CLI=release
    FLAGS=(--release)
fi
NOW=$(stamp)
STAMP="$V/target/stamp.$PROFILE"
[ -x "$V/harness/target/$PROFILE/mc" ] && [ -x "$V/target/cli/$CLI/pw_patch" ] && [ -x "$V/target/cli/$CLI/pw_diff" ] \
    && [ -x "$V/target/faultrun" ] && [ -x "$V/target/race" ] && [ -f "$V/target/circ.so" ] && [ "$(cat "$STAMP" 2>/dev/null)" = "$NOW" ] && exit 0
rm -f "$STAMP"
LOG="$V/target/build.log"
: >"$LOG"
run() {
    if ! "$@" >>"$LOG" 2>&1; then
        echo "build failed: $*" >&2
        tail -n 40 "$LOG" >&2
        exit 3
    fi
}
for d in "$V/target/cli/$CLI" "$V/harness/target/$PROFILE"; do
    if [ -d "$d/.fingerprint" ]; then
        find "$d/.fingerprint" -maxdepth 1 \( -name 'pw_*' -o -name 'mc-*' \) -exec rm -rf {} +
    fi
done
run cargo build --offline --manifest-path /repo/Cargo.toml --target-dir "$V/target/cli" -p pw_diff -p pw_patch "${FLAGS[@]}" &
A=$!
run cargo build --offline --manifest-path "$V/harness/Cargo.toml" --target-dir "$V/harness/target" --profile "$PROFILE" &
B=$!
run gcc -O2 -Wall -o "$V/target/faultrun" "$V/tracer/faultrun.c"
run gcc -O2 -Wall -o "$V/target/race" "$V/tracer/race.c"
run gcc -O2 -Wall -shared -fPIC -o "$V/target/circ.so" "$V/tracer/circ.c"
wait $A || exit 3
wait $B || exit 3
echo "$NOW" >"$STAMP"
