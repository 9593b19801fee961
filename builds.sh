# Sourced by run.sh and setup.sh: builds the harness variants a property needs.
rocksdb_lib() {
  # The compiled RocksDB of the repository's own build.
  local l
  for l in /opt/vp/ws/target/debug/build/librocksdb-sys-*/out/librocksdb.a; do
    if [ -f "$l" ]; then dirname "$l"; return 0; fi
  done
  return 1
}
build_variant() {
  case $1 in
    base) feats=() ;;
    uc)   feats=(--features uc) ;;
    lg)   feats=(--features lg) ;;
    ui)   feats=(--features ui) ;;
    ps)   feats=(--features ps)
          # If it is not there, RocksDB gets compiled.
          if rocksdb_lib >/dev/null; then export ROCKSDB_LIB_DIR=$(rocksdb_lib) ROCKSDB_STATIC=1; fi ;;
  esac
  export CARGO_TARGET_DIR=$ROOT/target-$1
  local log=$ROOT/target-$1.log
  if ! (cd "$ROOT/harness" && cargo build --offline -q "${feats[@]}") >"$log" 2>&1; then
    grep -E '^error' -A8 "$log" | head -60
    rm -f "$log"
    return 1
  fi
  rm -f "$log"
  BIN=$CARGO_TARGET_DIR/debug/vh
}
# The builds whose parts make up the check of a property. The jobs on the persistent storage are left out
# of the protocol checks where RocksDB would have to be compiled first.
parts_of() {
  local ps=ps
  rocksdb_lib >/dev/null || ps=base
  case $1 in
    C20|C21|C29) echo uc ;;
    C17|C18) echo ps ;;
    C27) echo ui ;;
    C28) echo lg ;;
    C10|C11|C22|C24|C25) echo base ;;
    C23) echo base uc ;;
    C26) echo $ps uc ;;
    *) echo $ps ;;
  esac
}
build_part() {
  if [ "$1" = lg ]; then build_variant base && export VH_BASE=$BIN || return 1; fi
  build_variant "$1"
}
