. /verif/env.sh; cd /verif/mc; CARGO_TARGET_DIR=/verif/target/mc RUSTFLAGS="--cfg omnipaxos_mc" cargo build --release --offline 2>&1 | grep -E "^(warning: unused|error|  -->)|Finished" | head -30
