#!/bin/bash
# run.sh <property> [quick|thorough] : rebuild from /repo's working tree, then run that property's monitors
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$V"
if [ -n "$2" ]; then export VERIF_TIER="$2"; fi
if [ "$1" = P32 ]; then export KV_STATE=1 KV_STATE_EXE="$V/target/h/debug/kv" KV_STATE_SO="$V/target/so_state/debug/libkryoptic_pkcs11.so"; fi
if [ "$1" = P34 ]; then export KV_TOOLS=1 KV_TOOL="$V/target/so/debug/softhsm_migrate" KV_REC="$V/target/libkvrec.so"; fi
if [ "$1" = P35 ]; then export KV_TLS="$V/target/tls/debug/libkvtls.so"; fi
"$V/build.sh" || { echo "build failed"; exit 2; }
export KV_VERIF="$V" KV_SO="$V/target/so/debug/libkryoptic_pkcs11.so" KV_SHIM="$V/target/libkvshim.so"
if [ "$1" = P24 ]; then . "$V/build_san.sh" || { echo "sanitizer build failed"; exit 2; }; fi
exec "$V/target/h/debug/kv" check "$1"
