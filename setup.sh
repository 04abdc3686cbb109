#!/bin/bash
# Builds the engine and its runtime library into /verif/build.
set -e
cd "$(dirname "$0")"; mkdir -p build
bash engine/build.sh
/usr/bin/clang++-18 -std=gnu++23 -D__cpp_concepts=202002L -Wno-builtin-macro-redefined -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GNU_SOURCE -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm -c -fno-builtin -w rt/runtime.cpp -o build/runtime0.bc
/usr/bin/clang++-18 -std=gnu++23 -D__cpp_concepts=202002L -Wno-builtin-macro-redefined -D_GNU_SOURCE -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm -c -fno-builtin -fno-access-control -w rt/iostreams.cpp -o build/iostreams.bc
/usr/bin/llvm-link-18 build/runtime0.bc build/iostreams.bc -o build/runtime.bc
echo "setup ok"
