#!/bin/bash
# Pre-builds the explorer; every check rebuilds what it needs by itself as well.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p target evidence replays
(cd mc && CARGO_TARGET_DIR=$PWD/../target/mc RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline) >target/setup.log 2>&1 || true
. ./rocks.sh
(cd st && CARGO_TARGET_DIR=$PWD/../target/st RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline) >>target/setup.log 2>&1 || true
(cd mc && CARGO_TARGET_DIR=$PWD/../target/uni RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline --features unicache) >>target/setup.log 2>&1 || true
(cd ui && CARGO_TARGET_DIR=$PWD/../target/ui RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline) >>target/setup.log 2>&1 || true
exit 0
