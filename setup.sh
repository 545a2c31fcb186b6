#!/bin/bash
# Builds the symbolic executor from the committed sources (offline). Idempotent.
set -e
cd "$(dirname "$0")"
mkdir -p build
LC=/usr/lib/llvm-18/bin/llvm-config
if [ ! -x build/mse ] || [ engine/mse.cpp -nt build/mse ] || [ engine/expr.h -nt build/mse ] || [ engine/exec.h -nt build/mse ] || [ engine/builtins.h -nt build/mse ]; then
  g++ -std=c++17 -O2 -g -fno-rtti -w $($LC --cppflags) engine/mse.cpp -o build/mse.tmp $($LC --ldflags) -lLLVM-18 -lz3
  mv build/mse.tmp build/mse
fi
echo "mse built"
