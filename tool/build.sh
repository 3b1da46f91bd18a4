#!/bin/bash
# Builds the fact extractor (needs only the pre-installed clang 18 development files).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
[ build/srcfacts -nt tool/srcfacts.cpp ] && exit 0
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions $(/usr/lib/llvm-18/bin/llvm-config --cppflags) tool/srcfacts.cpp \
   -o build/srcfacts.tmp.$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv build/srcfacts.tmp.$$ build/srcfacts
