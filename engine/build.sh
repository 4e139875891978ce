#!/bin/bash
# Build the symbolic executor into $1 (default /verif/build/psisym).
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build/psisym}
mkdir -p "$(dirname "$OUT")"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FL="-std=c++17 -O2 -g1 -fno-exceptions $(/usr/lib/llvm-18/bin/llvm-config --cppflags) -w"
for f in expr solver engine; do clang++ $FL -c "$D/$f.cpp" -o "$T/$f.o" & done
wait
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib 2>/dev/null | head -1)
if [ -n "$Z" ] && [ -e "$Z/libz3.so" ]; then ln -s "$Z/libz3.so" "$T/libz3.so"; ZL="-L$T -Wl,-rpath,$Z"; fi
clang++ "$T"/expr.o "$T"/solver.o "$T"/engine.o -o "$OUT.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lz3 -lpthread
mv "$OUT.tmp" "$OUT"
