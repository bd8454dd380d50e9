#!/bin/bash
# Usage: run.sh PROPERTY TIER. Builds the explorer against /repo's working tree, then explores PROPERTY.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_TIER="$2" VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/build" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p build evidence
# The loaders are always built from what is in /repo now, whatever the times of its files.
find build/{release,unoptimized}/{.fingerprint,deps} -maxdepth 1 \( -name 'nobject-rs-*' -o -name '*nobject_rs-*' \) -exec rm -rf {} + 2>/dev/null
if ! cargo build --release --offline --locked --quiet --manifest-path mc/Cargo.toml 2>build/build.log; then
    cat build/build.log >&2
    exit 2
fi
if [ "$1" = P01 ] || [ "$1" = build ]; then
    if ! cargo build --profile unoptimized --offline --locked --quiet --manifest-path mc/Cargo.toml 2>build/build.log; then
        cat build/build.log >&2
        exit 2
    fi
fi
[ "$1" = build ] && exit 0
exec build/release/mc check "$1"
