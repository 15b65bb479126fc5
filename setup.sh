#!/bin/bash
# Builds the fact extractor (about half a minute).  Checks call this too if the binary is missing.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/build
mkdir -p "$out"
src=$here/extractor/hxfacts.cpp
stamp=$(sha256sum "$src" | cut -d' ' -f1)
if [ -x "$out/hxfacts" ] && [ "$(cat "$out/hxfacts.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp=$out/hxfacts.$$
$L/bin/clang++ -std=c++17 -O1 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$src" -o "$tmp" \
  $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
mv "$tmp" "$out/hxfacts"
echo "$stamp" > "$out/hxfacts.stamp"
