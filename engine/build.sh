#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/engine}"
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -f "$Z3/include/z3++.h" ]; then Z3INC=/usr/include; Z3LIB="-lz3"; else Z3INC="$Z3/include"; Z3LIB="-L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib"; fi
LL=/usr/lib/llvm-18
CXX=clang++
FL="-std=c++20 -O2 -g0 -w -I$Z3INC -I$LL/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
( $CXX $FL -c "$here/expr.cpp" -o "$out/expr.o" ) &
$CXX $FL -c "$here/symex.cpp" -o "$out/symex.o"
wait
# static LLVM (cheaper forks) when it links, else the shared library
$CXX "$out/expr.o" "$out/symex.o" -o "$out/symex.tmp" $Z3LIB -L$LL/lib $($LL/bin/llvm-config --link-static --libs irreader core support) -lpthread -lz -lzstd -ltinfo -no-pie 2>/dev/null ||
$CXX "$out/expr.o" "$out/symex.o" -o "$out/symex.tmp" $Z3LIB -L$LL/lib -lLLVM-18 -lpthread
mv "$out/symex.tmp" "$out/symex"
