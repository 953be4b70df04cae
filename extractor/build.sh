#!/bin/bash
# builds the extractor into /verif/build (git-ignored)
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
LL=/usr/lib/llvm-18
if [ ! -x "$D/build/tvmx" ] || [ "$D/extractor/tvmx.cpp" -nt "$D/build/tvmx" ]; then
  g++ -std=c++17 -O1 -fno-rtti -w -I$LL/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$D/extractor/tvmx.cpp" -o "$D/build/tvmx.tmp.$$" -L$LL/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$LL/lib
  mv "$D/build/tvmx.tmp.$$" "$D/build/tvmx"
fi
