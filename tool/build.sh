#!/bin/bash
# builds the fact extractors (clang 18 libTooling); idempotent
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../.build; mkdir -p "$out"
for tool in extract serialize; do
   stamp=$(sha256sum "$here/$tool.cpp" | cut -d' ' -f1)
   if [ -x "$out/$tool" ] && [ "$(cat "$out/$tool.stamp" 2>/dev/null)" = "$stamp" ]; then continue; fi
   clang++ -O1 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -std=c++17 -fno-rtti -w "$here/$tool.cpp" -o "$out/$tool.tmp.$$" \
      /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
   mv "$out/$tool.tmp.$$" "$out/$tool"
   echo "$stamp" > "$out/$tool.stamp"
done
