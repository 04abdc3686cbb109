#!/bin/bash
# Builds the engine into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"; OUT=../build; mkdir -p $OUT
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX=/usr/bin/clang++-18
FLAGS="-std=gnu++20 -O2 -g1 -I/usr/lib/llvm-18/include -I$Z3/include -fno-rtti -Wno-deprecated"
if [ ! -f $Z3/include/z3.h ]; then Z3=; FLAGS="-std=gnu++20 -O2 -I/usr/lib/llvm-18/include"; fi
$CXX $FLAGS -c expr.cpp -o $OUT/expr.o &
$CXX $FLAGS -c exec.cpp -o $OUT/exec.o & wait %1; wait %2
$CXX $OUT/expr.o $OUT/exec.o -o $OUT/kse.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 ${Z3:+-L$Z3/lib -Wl,-rpath,$Z3/lib} -lz3 -lpthread
mv $OUT/kse.tmp $OUT/kse
