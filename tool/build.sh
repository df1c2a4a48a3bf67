#!/bin/bash
# build.sh OUT : compile the fact extractor (offline, against the installed clang 18 libraries)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
L=/usr/lib/llvm-18
cpp=$(ls $L/lib/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 2>/dev/null | head -1)
clang++-18 -O1 -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
	"$here/fx.cpp" -o "$out.tmp.$$" "$cpp" -L$L/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
