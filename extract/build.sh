#!/bin/bash
# Builds the extractor into /verif/.build (git-ignored).  Offline; uses the
# LLVM 18 development files of the sandbox only.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../.build"
mkdir -p "$out"
sum=$(sha256sum "$here/extract.cpp" | cut -d" " -f1)
if [ -x "$out/extract" ] && [ "$(cat "$out/extract.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
CXX=/usr/lib/llvm-18/bin/clang++
[ -x "$CXX" ] || CXX=$(command -v clang++-18 || command -v g++)
L=/usr/lib/llvm-18/lib
tmp="$out/extract.$$"
"$CXX" -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" -o "$tmp" -L$L -Wl,-rpath,$L $L/libclang-cpp.so.18.1 -lLLVM
mv -f "$tmp" "$out/extract"
echo "$sum" > "$out/extract.sum"
