#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build}
mkdir -p "$OUT"
clang++-18 -std=c++17 -O2 -g1 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/symex.cpp" -o "$OUT/symex.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp -lpthread
mv "$OUT/symex.tmp" "$OUT/symex"
