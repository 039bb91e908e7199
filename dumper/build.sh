#!/bin/bash
# build.sh NAME OUT: builds the libTooling program NAME.cpp into OUT
set -e
cd "$(dirname "$0")"
name=${1:-gludump}
out=${2:-./$name}
clang++-18 -O1 -fno-rtti -std=c++17 $(llvm-config-18 --cppflags) $name.cpp -o "$out" \
  -L$(llvm-config-18 --libdir) -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$(llvm-config-18 --libdir)
