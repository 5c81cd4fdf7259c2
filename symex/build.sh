#!/bin/bash
# Builds the engine into $1 (default /verif/build). Incremental.
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"; out=$(cd "$out" && pwd)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
[ -e $Z/lib/libz3.so.5.3 ] && ZL="-L$Z/lib -l:libz3.so.5.3 -Wl,-rpath,$Z/lib" ZI=-I$Z/include || { ZL=$(ls $Z/lib/libz3.so* 2>/dev/null | head -1); if [ -n "$ZL" ]; then ZL="$ZL -Wl,-rpath,$Z/lib"; ZI=-I$Z/include; else ZL=-lz3; ZI=; fi; }
LC=llvm-config-18; command -v $LC >/dev/null || LC=llvm-config
comp() { # src extra...
  local s=$1; shift; local o=$out/${s%.cpp}.o
  if [ ! -e $o ] || [ -n "$(find $here \( -name $s -o -name "*.hpp" -o -name "*.inc" \) -newer $o | head -1)" ]; then
    echo "compile $s"; g++ -O2 -g1 -std=c++17 "$@" -w -c $here/$s -o $o.tmp && mv $o.tmp $o; fi
}
comp expr.cpp & comp solver.cpp $ZI & comp x86.cpp & comp exec.cpp $($LC --cxxflags | sed 's/-fno-exceptions//') -fexceptions & 
for j in $(jobs -p); do wait $j; done
if [ ! -e $out/symex ] || [ -n "$(find $out -name '*.o' -newer $out/symex)" ]; then
  g++ -o $out/symex.tmp $out/{expr,solver,x86,exec}.o $($LC --ldflags --libs) $ZL && mv $out/symex.tmp $out/symex; fi
clang -O1 -fno-builtin -ffreestanding -w -emit-llvm -c $here/libc.c -o $out/libc.bc
