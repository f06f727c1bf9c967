#!/bin/bash
# Builds the symbolic executor. LLVM comes from the installed rustc, Z3 from the tool venv.
set -e
cd "$(dirname "$0")"
OUT=${1:-./symx}
LL=$(ls -d /root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib 2>/dev/null || dirname "$(rustc --print sysroot)/lib/x")
SO=$(ls "$LL"/libLLVM.so.* | head -1)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++20 -O2 -w -g1 -Wall -Wno-unused-function -Wno-class-memaccess -Wno-stringop-overflow -I. -I/usr/include/llvm-c-18 -I$Z/include main.cpp -Wl,--no-as-needed -lstdc++ $Z/lib/libz3.so "$SO" -Wl,-rpath,"$LL" -Wl,-rpath,$Z/lib -o "$OUT"
