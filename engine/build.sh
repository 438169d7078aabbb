#!/bin/bash
# builds the symbolic executor
set -e
cd "$(dirname "$0")"; OUT=${1:-../build}; mkdir -p "$OUT"
clang++ -std=c++17 -O2 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions symx.cpp -o "$OUT/symx.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$OUT/symx.tmp" "$OUT/symx"
