#!/bin/bash
# Builds the symbolic executor into /verif/build (nothing is fetched).
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"; B="${QSX_BUILD:-$HERE/../build}"; mkdir -p "$B"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -f "$Z3/lib/libz3.so" ]; then Z3INC=/usr/include; Z3LIB=/usr/lib/x86_64-linux-gnu; else Z3INC=$Z3/include; Z3LIB=$Z3/lib; fi
if [ "$B/qsx" -nt "$HERE/qsx.cpp" ] && [ "$B/qsx" -nt "$HERE/uni.h" ] && [ "$B/qsx" -nt "$HERE/race.h" ]; then exit 0; fi
T="$B/qsx.$$"
clang++-18 -std=c++17 -O2 -w -fexceptions -frtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I"$Z3INC" "$HERE/qsx.cpp" -o "$T" -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$Z3LIB" -Wl,-rpath,"$Z3LIB" -lz3 -lffi -ldl -rdynamic
mv "$T" "$B/qsx"
