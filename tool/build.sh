#!/bin/bash
# Builds the extractor /verif/build/gegex (once; rebuilt when its source changes).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(cd "$here/.." && pwd)/build
mkdir -p "$out"
exec 9>"$out/.lock"
flock 9
sum=$(sha256sum "$here/extract.cpp" | cut -d' ' -f1)
if [ -x "$out/gegex" ] && [ "$(cat "$out/gegex.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w "$here/extract.cpp" -o "$out/gegex.tmp" \
    /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 /usr/lib/x86_64-linux-gnu/libLLVM-18.so
mv "$out/gegex.tmp" "$out/gegex"
echo "$sum" > "$out/gegex.sum"
