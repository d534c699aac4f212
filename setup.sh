#!/bin/bash
# Builds the harness (and with it fajt, from /repo's working tree), offline.
cd "$(dirname "$0")/harness" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
log=$(mktemp)
cargo build --offline --locked --target-dir ../target >"$log" 2>&1
rc=$?
[ $rc = 0 ] || tail -40 "$log" >&2
rm -f "$log"
exit $rc
