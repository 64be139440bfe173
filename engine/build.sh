#!/bin/bash
# Builds the engine into $1 (default /verif/build).
set -e
cd "$(dirname "$0")"
out=${1:-../build}
mkdir -p "$out"
F="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -frtti -O2 -std=c++17 -w"
clang++-18 $F -c exec.cc -o "$out/exec.o" & p1=$!
clang++-18 -O2 -std=c++17 -c expr.cc -o "$out/expr.o" & p2=$!
clang++-18 -O2 -std=c++17 -c solver.cc -o "$out/solver.o" & p3=$!
wait $p1; wait $p2; wait $p3
clang++-18 "$out/exec.o" "$out/expr.o" "$out/solver.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$out/vfx.tmp$$"
mv "$out/vfx.tmp$$" "$out/vfx"
