#!/bin/bash
# Builds the symbolic executor into $1 (default: /verif/.build/symex).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
OUT="${1:-/verif/.build/symex}"
SYS=$(rustc --print sysroot)
LIB=$(ls "$SYS"/lib/libLLVM.so.*-rust-* | head -1)
mkdir -p "$(dirname "$OUT")"
clang++ -O2 -g1 -std=c++17 -I/usr/lib/llvm-18/include -o "$OUT.tmp$$" symex.cpp expr.cpp -lz3 "$LIB" -Wl,-rpath,"$SYS/lib"
mv "$OUT.tmp$$" "$OUT"
