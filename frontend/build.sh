#!/bin/bash
# builds vfront into /verif/.build (ignored by git)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build}
mkdir -p "$out"
if [ -x "$out/vfront" ] && [ "$out/vfront" -nt "$here/vfront.cpp" ]; then exit 0; fi
tmp="$out/vfront.$$"
g++ -std=c++17 -O1 -fno-rtti -w $(/usr/bin/llvm-config-18 --cxxflags 2>/dev/null | tr ' ' '\n' | grep -E '^-(I|D)' | tr '\n' ' ') -I/usr/lib/llvm-18/include \
  "$here/vfront.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.1 -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$tmp" "$out/vfront"
