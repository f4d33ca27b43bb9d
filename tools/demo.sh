#!/bin/bash
# Compiles demo.cpp with the sources of the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
code=$repo/capi/src/implementation/visibility_graphs/code
libs=$repo/capi/cpp_libs
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
inc="-I$code -I$libs/fmt/include -I$libs/mio -I$libs/indicators/include"
[ -f /opt/capi/include/pypy_compat.h ] && inc="$inc -include /opt/capi/include/pypy_compat.h"
i=0
for s in $(find "$code" -name '*.cpp') "$libs/fmt/src/format.cc" "$here/demo.cpp"; do
    g++ -std=c++17 -O1 -w -fopenmp $inc -c "$s" -o "$tmp/$i.o" || touch "$tmp/failed" &
    i=$((i + 1))
done
wait
[ -f "$tmp/failed" ] && exit 3
g++ -fopenmp "$tmp"/*.o -o "$tmp/demo" -ls2 -lpthread || exit 3
cd "$tmp" && timeout 120 ./demo
