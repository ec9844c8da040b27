#!/bin/bash
# compiles the demonstration against the working tree it is run in; exit 0 iff the property holds
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
F="-std=c++17 -O1 -w -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -I$here -I$repo/include -I$repo -I$tmp $(sed -n '1s,^// flags: ,,p' "$here/demo.cpp")"
for f in "$repo"/lib/*.cpp; do g++ $F -c "$f" -o "$tmp/$(basename "$f").o" & done
g++ $F -c "$here/demo.cpp" -o "$tmp/demo.o" &
wait
g++ "$tmp"/*.o -o "$tmp/demo" -lntl -lgf2x -lgmp -lpthread
cd "$tmp"
timeout 120 ./demo
