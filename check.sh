#!/bin/bash
# ./check.sh <property> [options of the harness]
# Builds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$PWD" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
./setup.sh >/dev/null || exit 2
if [ "$1" = P22 ]; then
    cargo build --quiet --offline --locked --manifest-path /repo/Cargo.toml --bin fajt --target-dir target/cli >target/cli.log 2>&1 ||
        { tail -40 target/cli.log >&2; exit 2; }
fi
if [ "$1" = P27 ]; then
    cargo build --quiet --offline --locked --manifest-path /repo/Cargo.toml -p fajt_macros --target-dir target/macros >target/macros.log 2>&1 ||
        { tail -40 target/macros.log >&2; exit 2; }
fi
ulimit -c 0
exec "$PWD/target/debug/fajt_verif" "$@"
