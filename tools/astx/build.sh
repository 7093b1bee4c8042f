#!/bin/bash
# Builds astx into $1 (default /verif/build).
set -e
D=$(dirname "$(realpath "$0")")
OUT=${1:-$(realpath "$D/../..")/build}
mkdir -p "$OUT"
LIB=/usr/lib/llvm-18/lib
CL=$(ls $LIB/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
LL=$(ls $LIB/libLLVM*.so* /usr/lib/x86_64-linux-gnu/libLLVM-18.so /usr/lib/x86_64-linux-gnu/libLLVM.so.18.1 2>/dev/null | head -1)
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/astx.cc" -o "$OUT/astx.tmp" "$CL" "$LL"
mv "$OUT/astx.tmp" "$OUT/astx"
