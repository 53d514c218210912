#!/bin/bash
# bash check.sh PROPERTY quick|thorough
# Rebuilds the explorer against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
here=$PWD
. "$here/env.sh"
prop=$1 tier=${2:-quick}
build() { # build DIR TARGET FEATURES
    local log=$here/target/$2.log
    mkdir -p "$here/target"
    (cd "$here/$1" && CARGO_TARGET_DIR=$here/target/$2 RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline $3) >"$log" 2>&1 && return 0
    # without the hook (it only provides a state digest)
    (cd "$here/$1" && CARGO_TARGET_DIR=$here/target/$2-nohook RUSTFLAGS="" cargo build --release --offline $3) >"$log.nohook" 2>&1 && { nohook=-nohook; return 0; }
    tail -30 "$log"
    echo "build failed" >&2
    exit 2
}
nohook=
case $prop in
C14 | C15)
    . "$here/rocks.sh"
    build st st ""
    exec "$here/target/st$nohook/release/st" check "$prop" "$tier" --evidence "$here/evidence/$prop.json" --replays "$here/replays"
    ;;
C21)
    build ui ui ""
    exec "$here/target/ui$nohook/release/ui" check "$prop" "$tier" --evidence "$here/evidence/$prop.json" --replays "$here/replays"
    ;;
C16)
    build mc uni "--features unicache"
    exec "$here/target/uni$nohook/release/mc" check "$prop" "$tier" --evidence "$here/evidence/$prop.json" --replays "$here/replays"
    ;;
*)
    build mc mc ""
    exec "$here/target/mc$nohook/release/mc" check "$prop" "$tier" --evidence "$here/evidence/$prop.json" --replays "$here/replays"
    ;;
esac
