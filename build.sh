#!/bin/bash
# Build the module under test from /repo's working tree and the monitors. Usage: build.sh [asan|tsan]
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p "$V/target" "$V/out" "$V/evidence"
FEAT=kryoptic-lib/dynamic,kryoptic-lib/sqlitedb,kryoptic-lib/nssdb,kryoptic-lib/log,kryoptic-lib/ecdsa,kryoptic-lib/ecdh,kryoptic-lib/ec_montgomery,kryoptic-lib/ffdh,kryoptic-lib/hash_all,kryoptic-lib/kdf_all,kryoptic-lib/rsa,kryoptic-lib/hotp,kryoptic-lib/profiles,kryoptic/nssdb
exec 9>"$V/target/lock"
flock 9
# P34: softhsm_migrate too
TOOLS=; if [ -n "$KV_TOOLS" ]; then TOOLS="-p kryoptic-tools --lib --bin softhsm_migrate"; fi
build_so() { (cd /repo && CARGO_TARGET_DIR="$V/target/so" cargo build --offline -q -p kryoptic -p kryoptic-lib $TOOLS --no-default-features --features "$FEAT") }
# P32: the same module, with the hook that makes digest states saveable (see DESIGN.md)
build_state() { (cd /repo && RUSTFLAGS="--cfg kv_md_state" CARGO_TARGET_DIR="$V/target/so_state" cargo build --offline -q -p kryoptic -p kryoptic-lib --no-default-features --features "$FEAT") }
# P35: the rustls provider behind a C entry
build_tls() { (cd "$V/tls" && CARGO_TARGET_DIR="$V/target/tls" cargo build --offline -q) }
build_h() { (cd "$V/harness" && CARGO_TARGET_DIR="$V/target/h" cargo build --offline -q) }
build_so >"$V/target/so.log" 2>&1 & P1=$!
build_h >"$V/target/h.log" 2>&1 & P2=$!
if [ -n "$KV_STATE" ]; then build_state >"$V/target/so_state.log" 2>&1 & P3=$!; fi
if [ -n "$KV_TLS" ]; then build_tls >"$V/target/tls.log" 2>&1 & P4=$!; fi
if [ -f "$V/harness/shim.c" ]; then
  if [ ! -f "$V/target/libkvshim.so" ] || [ "$V/harness/shim.c" -nt "$V/target/libkvshim.so" ]; then
    gcc -O1 -g -shared -fPIC -o "$V/target/libkvshim.so" "$V/harness/shim.c" -ldl -lpthread
  fi
fi
if [ ! -f "$V/target/libkvjit.so" ] || [ "$V/harness/jit.c" -nt "$V/target/libkvjit.so" ]; then
  gcc -O1 -g -shared -fPIC -o "$V/target/libkvjit.so" "$V/harness/jit.c"
fi
if [ ! -f "$V/target/libkvrec.so" ] || [ "$V/harness/kvrec.c" -nt "$V/target/libkvrec.so" ]; then
  gcc -O1 -g -shared -fPIC -o "$V/target/libkvrec.so" "$V/harness/kvrec.c" -ldl
fi
R=0
wait $P1 || { cat "$V/target/so.log"; R=2; }
wait $P2 || { cat "$V/target/h.log"; R=2; }
if [ -n "$KV_STATE" ]; then wait $P3 || { cat "$V/target/so_state.log"; R=2; }; fi
if [ -n "$KV_TLS" ]; then wait $P4 || { cat "$V/target/tls.log"; R=2; }; fi
exit $R
