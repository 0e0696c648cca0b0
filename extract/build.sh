#!/bin/bash
# builds the extractor into $1
set -e
L=/usr/lib/llvm-18/lib
clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$(dirname "$0")/lcvx.cc" -o "$1" $L/libclang-cpp.so.18.1 -L$L -lLLVM-18 -Wl,-rpath,$L
