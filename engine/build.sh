#!/bin/bash
# builds the symbolic executor into /verif/engine/bin (git-ignored)
set -e
cd "$(dirname "$0")"; mkdir -p bin
new=no; for f in *.cpp *.h; do [ ! -e bin/vsx ] || [ $f -nt bin/vsx ] && new=yes; done
[ $new = yes ] || exit 0
FL="-O2 -std=gnu++17 -w $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | tr ' ' '\n' | grep -E '^-I|^-D' | tr '\n' ' ')"
for f in expr solver vsx; do g++ $FL -fexceptions -c $f.cpp -o bin/$f.o.$$ & done
for p in $(jobs -p); do wait $p || exit 1; done
g++ -o bin/vsx.$$ bin/expr.o.$$ bin/solver.o.$$ bin/vsx.o.$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
rm -f bin/*.o.$$; mv bin/vsx.$$ bin/vsx
