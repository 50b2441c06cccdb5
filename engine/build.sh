#!/bin/bash
# builds the symbolic executor (idempotent)
set -e
cd "$(dirname "$0")"
OUT=${1:-./bin}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LV=/usr/lib/llvm-18
if [ -x "$OUT/symx" ] && [ "$OUT/symx" -nt symx.cpp ] && [ "$OUT/symx" -nt special.inc ] && [ "$OUT/symx" -nt intrinsics.inc ] && [ "$OUT/symx" -nt rat.inc ]; then exit 0; fi
T=$(mktemp "$OUT/symx.XXXXXX")
g++ -std=c++17 -O2 -w -I$Z/include -I$LV/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS symx.cpp -o "$T" -L$LV/lib -lLLVM-18 $Z/lib/libz3.so -lgmpxx -lgmp -Wl,-rpath,$Z/lib -Wl,-rpath,$LV/lib
chmod 755 "$T"; mv -f "$T" "$OUT/symx"
