#!/bin/bash
# Tests the engine's rewriting and solver layers (see engine/selftest.cpp). Usage: selftest.sh [SEEDS]
set -e
v=$(cd "$(dirname "$0")/.." && pwd)
[ -f "$v/build/expr.o" ] || "$v/engine/build.sh" "$v/build"
clang++ -std=c++20 -O2 -g1 -Wno-zero-length-array -I"$v/engine" "$v/engine/selftest.cpp" "$v"/build/{expr,algebra,solver}.o -lz3 -lcrypto -lpthread -o "$v/build/selftest"
for s in $(seq 1 "${1:-4}"); do
  "$v/build/selftest" terms "$s" 200000
  "$v/build/selftest" prove "$s" 1500
done
