#!/bin/bash
# build.sh OUTDIR: builds the engine there
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
F="-O2 -g0 -std=c++20 -w -I/usr/include/llvm-c-18 -I/usr/include/llvm-18"
g++ $F -c "$D/expr.cc" -o "$O/expr.o" &
g++ $F -c "$D/solver.cc" -o "$O/solver.o" &
g++ $F -c "$D/symx.cc" -o "$O/symx.o" &
g++ $F -fpermissive -c "$D/sat.cc" -o "$O/sat.o" &
wait
g++ -o "$O/symx" "$O/symx.o" "$O/expr.o" "$O/solver.o" "$O/sat.o" /usr/lib/x86_64-linux-gnu/libLLVM.so.20.1 -lz3 -lminisat
