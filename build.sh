#!/bin/bash
# builds the extractor (needs only clang 18 + its dev headers, both in the sandbox)
cd "$(dirname "$0")" && mkdir -p build
if [ ! -x build/tatv-extract ] || [ tatv/extract.cpp -nt build/tatv-extract ]; then
  /usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -w $(/usr/bin/llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') tatv/extract.cpp \
    -o build/tatv-extract.$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 && mv build/tatv-extract.$$ build/tatv-extract
fi
