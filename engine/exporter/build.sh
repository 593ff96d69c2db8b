#!/bin/bash
# builds the exporter into $1
set -e
here=$(dirname "$(readlink -f "$0")")
out=${1:-/verif/build}
mkdir -p "$out"
if [ "$out/export" -nt "$here/export.cpp" ]; then exit 0; fi
LIB=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* | head -1)
LL=$(ls /usr/lib/llvm-18/lib/libLLVM*.so* /usr/lib/x86_64-linux-gnu/libLLVM*18*.so* 2>/dev/null | head -1)
clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -o "$out/export.tmp$$" "$here/export.cpp" "$LIB" "$LL" -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/export.tmp$$" "$out/export"
