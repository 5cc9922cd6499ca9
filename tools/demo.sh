#!/bin/bash
# Builds demo.cc against the library just built in /repo/_build and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
L=/usr/lib/x86_64-linux-gnu
I="-I$PWD/include"
for i in $L/openmpi/include $L/openmpi/include/openmpi /usr/include/petsc /usr/include/trilinos /usr/include/hdf5/openmpi /usr/include/scotch /usr/include/suitesparse /usr/include/opencascade /usr/include/slepc; do I="$I -isystem $i"; done
T=$(ls $L/libtrilinos_*.so | grep -v stokhos)
g++ -std=c++17 -O1 -w -fPIC -fno-access-control $DEMO_FLAGS $I "$here/demo.cc" $DEMO_SOURCES -o "$w/demo" -fuse-ld=gold \
  $PWD/_build/libbem_fma-lib.so -Wl,-rpath,$PWD/_build -ldeal.ii -Wl,--as-needed $T -ltbb -L$L/openmpi/lib -lmpi -lmpi_cxx -lpetsc_real $L/libTK*.so -lboost_system || exit 3
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 DEMO_REPO=$PWD
cd "$w" && timeout 250 ./demo
