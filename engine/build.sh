#!/bin/bash
# builds /verif/build/symx
set -e
D=$(cd "$(dirname "$0")" && pwd)
O=${1:-$D/../build}
mkdir -p "$O/obj"
CXX=${CXX:-clang++-18}
FL="-O2 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
for f in expr solver prog exec; do
  if [ ! -f "$O/obj/$f.o" ] || [ -n "$(find "$D" -name '*.h' -newer "$O/obj/$f.o" -o -name "$f.cpp" -newer "$O/obj/$f.o")" ]; then
    rm -f "$O/obj/$f.o"
    $CXX $FL -c "$D/$f.cpp" -o "$O/obj/$f.o" &
  fi
done
wait; for f in expr solver prog exec; do [ -f "$O/obj/$f.o" ] || { rm -f "$O/symx"; exit 1; }; done
$CXX "$O"/obj/{expr,solver,prog,exec}.o -o "$O/symx" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
