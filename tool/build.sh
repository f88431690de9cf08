#!/bin/bash
# builds /verif/tool/astdump when missing or older than its source
set -eu
cd "$(dirname "$0")"
mkdir -p build
h=$(sha256sum astdump.cpp | cut -c1-16)
if [ -x build/astdump ] && [ "$(cat build/stamp 2>/dev/null)" = "$h" ]; then exit 0; fi
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS astdump.cpp -o build/astdump.$$ -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv build/astdump.$$ build/astdump
echo "$h" > build/stamp
