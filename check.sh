#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the simulation from /repo's working tree and run one check
cd /verif || exit 2
. /verif/env.sh
export EGOBOX_LOG=off RUST_BACKTRACE=0
if ! (cd dst && cargo build --release --offline --quiet 2> /verif/build.log); then
    echo "the build of the simulation failed:" >&2
    grep -E "^error" -A 12 /verif/build.log | head -60 >&2
    exit 2
fi
exec dst/target/release/dst check "$1" "${2:-${VERIF_TIER:-quick}}"
