#!/bin/bash
# builds the verifier and the support bitcode (skipped when sources are unchanged)
set -e
cd "$(dirname "$0")/.."
mkdir -p build
exec 9>build/.lock; flock 9
sum=$(cat engine/*.cc engine/*.hh lib/support.cc engine/build.sh | md5sum | cut -d' ' -f1)
if [ -x build/irvc ] && [ -f build/support.bc ] && [ "$(cat build/irvc.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
/usr/bin/clang++-18 -std=c++20 -O0 -Xclang -disable-O0-optnone -g -w -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -c -isystem /opt/dune/venv/include lib/support.cc -o build/support.bc
/usr/bin/clang++-18 -std=c++20 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include engine/irvc.cc -o build/irvc.new -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp
mv build/irvc.new build/irvc
echo "$sum" > build/irvc.sum
