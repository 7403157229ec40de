#!/bin/bash
# build the extractor into /verif/.cache (git-ignored)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.cache/dndsx}
mkdir -p "$(dirname "$out")"
g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/dndsx.cpp" \
  -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out.tmp.$$" "$out"
