#!/bin/bash
# build_san.sh : sourced by run.sh for P24; builds module and monitors with ThreadSanitizer and AddressSanitizer
san_build() { # name flags
  local N=$1 F=$2 T=x86_64-unknown-linux-gnu
  (
    export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$F" CARGO_TARGET_DIR="$V/target/$N" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
    export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
    (cd /repo && cargo build --offline -q -Zbuild-std --target $T -p kryoptic -p kryoptic-lib --no-default-features --features "$FEAT") &&
    (cd "$V/harness" && cargo build --offline -q -Zbuild-std --target $T)
  ) >"$V/target/$N.log" 2>&1
}
FEAT=$(sed -n 's/^FEAT=//p' "$V/build.sh")
. /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p "$V/target"
san_build tsan "-Zsanitizer=thread -Clink-args=-rdynamic" & PT=$!
san_build asan "-Zsanitizer=address -Clink-args=-rdynamic" & PA=$!
SR=0
wait $PT || { tail -20 "$V/target/tsan.log"; SR=2; }
wait $PA || { tail -20 "$V/target/asan.log"; SR=2; }
[ $SR = 0 ] || return 2
for s in tsan asan; do
  S=${s^^}; D="$V/target/$s/x86_64-unknown-linux-gnu/debug"
  export KV_${S}_EXE="$D/kv" KV_${S}_SO="$D/libkryoptic_pkcs11.so"
done
