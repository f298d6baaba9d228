#!/bin/bash
# builds the engine into $1
set -e
out=$(realpath -m "${1:-/verif/build}"); cd "$(dirname "$0")"
mkdir -p "$out"
g++ -std=c++17 -O2 -w $(llvm-config-18 --cppflags 2>/dev/null || llvm-config --cppflags) -fno-exceptions -fexceptions compile.cpp exec.cpp -o "$out/symir.tmp.$$" -L$(llvm-config-18 --libdir 2>/dev/null || llvm-config --libdir) -lLLVM-18 -lz3 -lpthread
mv "$out/symir.tmp.$$" "$out/symir"
