#!/bin/bash
# Builds the engine into $1 (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
CXX=/usr/bin/clang++
F="-std=c++20 -O2 -g1 -Wno-zero-length-array -Wno-deprecated-declarations -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr algebra; do $CXX $F -c "$here/$f.cpp" -o "$out/$f.o" & done
$CXX $F -fexceptions -c "$here/solver.cpp" -o "$out/solver.o" &
$CXX $F -fexceptions -c "$here/interp.cpp" -o "$out/interp.o" &
wait
$CXX -o "$out/symx.tmp" "$out"/expr.o "$out"/algebra.o "$out"/solver.o "$out"/interp.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lcrypto -lpthread
mv "$out/symx.tmp" "$out/symx"
