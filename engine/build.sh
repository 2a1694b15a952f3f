#!/bin/bash
# Builds the verifier (LLVM 18 + Z3), output: $1
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
clang++-18 -std=c++17 -O2 -g0 -fno-rtti -fexceptions jcv.cpp -isystem $Z/include \
  $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//;s/-I/-isystem /') \
  -o "$1" /usr/lib/llvm-18/lib/libLLVM-18.so -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
