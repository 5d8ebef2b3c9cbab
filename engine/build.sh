#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/vpse).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/vpse}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/vpse.cpp" ] && [ "$out" -nt "$here/exec.h" ] && [ "$out" -nt "$here/builtins.h" ] && [ "$out" -nt "$here/expr.h" ] && [ "$out" -nt "$here/tables.h" ] && [ "$out" -nt "$here/solver.h" ]; then exit 0; fi
tmp="$out.tmp.$$"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
clang++-18 -std=c++17 -O2 -fexceptions -I$Z/include -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w "$here/vpse.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out"
