#!/bin/bash
# Builds the engine into $1 (default /verif/build/engine).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f "$Z/lib/libz3.so" ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=""; ZL="-lz3"; fi
LI=$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)
LL=$(llvm-config-18 --libdir 2>/dev/null || echo /usr/lib/llvm-18/lib)
for f in expr solver main; do
  clang++ -std=c++17 -O2 -fno-exceptions -w $ZI -I"$LI" -c "$HERE/$f.cc" -o "$OUT/$f.$$.o" $( [ $f = main ] && echo -fexceptions ) &
done
wait
clang++ "$OUT/expr.$$.o" "$OUT/solver.$$.o" "$OUT/main.$$.o" -L"$LL" -Wl,-rpath,"$LL" -lLLVM-18 $ZL -lpthread -o "$OUT/symex.$$"
mv "$OUT/symex.$$" "$OUT/symex"
rm -f "$OUT"/*.$$.o
