#!/bin/bash
# usage: build_exporter.sh OUT   -- builds the clang-18 based AST exporter
set -e
here=$(dirname "$(realpath "$0")")
LIB=$(ls /usr/lib/llvm-18/lib/libclang-cpp.so.18* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
LLVM=$(ls /usr/lib/llvm-18/lib/libLLVM*.so* /usr/lib/x86_64-linux-gnu/libLLVM*18*.so* 2>/dev/null | head -1)
clang++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$here/cxxexport.cpp" -o "$1.tmp.$$" "$LIB" "$LLVM" -Wl,-rpath,"$(dirname "$LIB")"
mv "$1.tmp.$$" "$1"
