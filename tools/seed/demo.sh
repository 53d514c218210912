#!/bin/bash
# Builds a small program against the repository in the current directory and runs it.
# Exit 0: the program's assertions hold.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/p/src"
cp "$here"/*.rs "$w/p/src/"
feat=; [ -f "$here/features" ] && feat=$(cat "$here/features")
sfeat=; [ -f "$here/storage_features" ] && sfeat=$(cat "$here/storage_features")
cat >"$w/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
unicache = []
serde = []
default = ["serde"$(case "$feat" in *unicache*) echo ', "unicache"';; esac)]
[dependencies]
omnipaxos = { path = "$repo/omnipaxos", features = ["serde", "toml_config"$feat] }
omnipaxos_storage = { path = "$repo/omnipaxos_storage", features = [$sfeat] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3.3"
T
[ -f "$here/deps" ] && sed "s#@REPO@#$repo#" "$here/deps" >>"$w/p/Cargo.toml"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$w/p/"
if [ -n "$sfeat" ]; then
    # the RocksDB library that the repository's build left behind
    for d in /opt/vp/ws/target/debug/build/librocksdb-sys-*/out; do
        [ -f "$d/librocksdb.a" ] && [ -f "$d/libsnappy.a" ] && export ROCKSDB_LIB_DIR=$d ROCKSDB_STATIC=1 SNAPPY_LIB_DIR=$d SNAPPY_STATIC=1
    done
fi
cd "$w/p" || exit 3
CARGO_TARGET_DIR=$w/t cargo build --offline --quiet >"$w/log" 2>&1 || { cat "$w/log"; echo "demo does not build"; exit 3; }
mkdir "$w/scratch" && cd "$w/scratch" || exit 3
timeout 120 "$w/t/debug/demo"
r=$?
[ $r = 0 ] && echo "demo: holds" || echo "demo: FAILED ($r)"
exit $r
