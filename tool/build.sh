#!/bin/bash
# build.sh OUT: builds the IR dumper with the packaged LLVM 18
set -e
D=$(cd "$(dirname "$0")" && pwd)
clang++-18 -O1 -w "$D/irdump.cpp" -o "$1.tmp.$$" -I/usr/lib/llvm-18/include -std=c++17 -fexceptions -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$1.tmp.$$" "$1"
