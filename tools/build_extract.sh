#!/bin/bash
# Builds the LibTooling extractor into $1 unless already there and newer.
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1
[ -x "$out" ] && [ "$out" -nt "$here/extract/extract.cc" ] && exit 0
mkdir -p "$(dirname "$out")"
clang++-17 -std=c++17 -fno-rtti -O0 -w -I/usr/lib/llvm-17/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract/extract.cc" -L/usr/lib/llvm-17/lib /usr/lib/x86_64-linux-gnu/libclang-cpp.so.17 \
  -lLLVM-17 -o "$out.tmp.$$"
mv "$out.tmp.$$" "$out"
