#!/bin/bash
# builds the engine into ${1:-build}
set -e
cd "$(dirname "$0")"; B=${1:-../build}; mkdir -p "$B"
if [ -x "$B/vsym" ] && [ "$B/vsym" -nt vsym.cpp ] && [ "$B/vsym" -nt expr.cpp ] && [ "$B/vsym" -nt expr.h ] && [ "$B/vsym" -nt race.h ]; then exit 0; fi
F="-std=c++17 -O2 -g1 -I$(/usr/lib/llvm-18/bin/llvm-config --includedir) -fno-rtti -w"
g++ $F -c expr.cpp -o "$B/expr.o" & g++ $F -c vsym.cpp -o "$B/vsym.o" & wait %1; wait %2
g++ "$B/expr.o" "$B/vsym.o" -o "$B/vsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/vsym.tmp" "$B/vsym"
