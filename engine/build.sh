#!/bin/bash
# Builds the analyser from /verif/engine into the directory given (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out/o"
cxx="g++ -std=c++17 -O2 -march=native"
for f in dom interp spec hooks main py; do $cxx -c "$here/$f.cpp" -o "$out/o/$f.o" & p="$p $!"; done
for f in loader scan; do $cxx -I/usr/lib/llvm-18/include -fno-rtti -c "$here/$f.cpp" -o "$out/o/$f.o" & p="$p $!"; done
for x in $p; do wait $x; done
g++ "$out"/o/*.o -o "$out/analyze.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 && mv "$out/analyze.tmp" "$out/analyze"
