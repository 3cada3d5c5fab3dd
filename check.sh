#!/bin/bash
# check.sh PROPERTY [options]: builds the harness against /repo's working tree
# and decides one property. Exit 0: held; 1: VIOLATION; 2: error.
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$VERIF_DIR/harness/target
cd "$VERIF_DIR/harness" || exit 2
mkdir -p target
exec 9>target/.check.lock
flock 9
# Cargo goes by modification times; a checkout may bring older ones.
now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$now" ]; then
    rm -f target/.repo-hash
    [ -d target/debug ] && cargo clean --offline -q -p probability 2>/dev/null
fi
if ! cargo build --offline -q 2>target/build.log; then
    cat target/build.log >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
echo "$now" > target/.repo-hash
flock -u 9
[ "$1" = --build ] && exit 0
exec ./target/debug/harness "$@"
