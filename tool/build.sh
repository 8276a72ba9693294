#!/bin/bash
# Builds /verif/build/extract unless it is up to date with extract.cc.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
mkdir -p "$out"
sum="$(sha256sum "$here/extract.cc" "$here/build.sh" | sha256sum | cut -d' ' -f1)"
if [ -x "$out/extract" ] && [ "$(cat "$out/extract.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp="$out/extract.$$"
clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cc" -o "$tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.1
mv "$tmp" "$out/extract"
echo "$sum" > "$out/extract.sum"
