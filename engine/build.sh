#!/bin/bash
# builds lsym into $1
set -e
mkdir -p "$(dirname "$1")"
d=$(cd "$(dirname "$0")" && pwd)
clang++-18 -O2 -std=c++17 -w -I/usr/lib/llvm-18/include "$d/main.cpp" -o "$1.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$1.tmp.$$" "$1"
