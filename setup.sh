#!/bin/bash
# builds the IR exporter used by every check (LLVM 18 development files are part of the sandbox)
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
clang++-18 -O1 -w $(/usr/lib/llvm-18/bin/llvm-config --cxxflags) -std=c++17 -fexceptions "$here/tool/irdump.cpp" -o "$here/build/irdump.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$here/build/irdump.tmp" "$here/build/irdump"
