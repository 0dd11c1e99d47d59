#!/bin/bash
# builds the extractor
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../.cache/cxxdump}; mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18
clang++ -std=c++17 -fno-rtti -w -O1 -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS "$d/cxxdump.cpp" -o "$out.$$" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so.1 -Wl,-rpath,$L/lib
mv "$out.$$" "$out"
