#!/bin/bash
# Builds the IR normaliser/dumper used by every check.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irx ] || [ tools/irx.cpp -nt build/irx ]; then
  clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cppflags) tools/irx.cpp -o build/irx.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18
  mv build/irx.tmp.$$ build/irx
fi
