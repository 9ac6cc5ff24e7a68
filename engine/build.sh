#!/bin/bash
# builds the symbolic execution engine into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
if [ -x "$out/sphse" ] && [ -z "$(find "$here" -newer "$out/sphse" \( -name '*.cpp' -o -name '*.h' -o -name build.sh \) -print -quit)" ]; then exit 0; fi
tmp=$(mktemp "$out/sphse.XXXXXX")
clang++ -O2 $(llvm-config --cxxflags | sed 's/-fno-exceptions//') -fexceptions -w -o "$tmp" "$here/sphse.cpp" $(llvm-config --ldflags) -lLLVM-18 -lz3
chmod 755 "$tmp"; mv -f "$tmp" "$out/sphse"
