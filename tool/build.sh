#!/bin/bash
# Builds the extractor into $1 (default /verif/build/arx).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/arx}
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/arx.cc" -o "$out.tmp$$" -L$L/lib -Wl,-rpath,$L/lib $L/lib/libclang-cpp.so.18.1 -lLLVM-18
mv "$out.tmp$$" "$out"
