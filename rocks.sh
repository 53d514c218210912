# Sourced: uses the RocksDB library that the repository's own build left behind, if there is one.
for d in /opt/vp/ws/target/debug/build/librocksdb-sys-*/out; do
    if [ -f "$d/librocksdb.a" ] && [ -f "$d/libsnappy.a" ]; then
        export ROCKSDB_LIB_DIR=$d ROCKSDB_STATIC=1 SNAPPY_LIB_DIR=$d SNAPPY_STATIC=1
        break
    fi
done
