#!/bin/bash
# builds the IR normaliser (the only compiled part of the framework itself)
set -e
cd "$(dirname "$0")"
mkdir -p build
g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include engine/irdump.cpp -o build/irdump.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/irdump.tmp build/irdump
