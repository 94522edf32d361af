#!/bin/bash
# builds demo.cpp against the library in _build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -fPIC -mavx2 -mfma -fopenmp -DENABLE_AVX=1 -DINSTRUCTION_SET=2 -DUSE_MVEC=1 -DHAVE_AVX2_INSTRUCTIONS -DENABLE_FITTING=OFF \
  "-DAMPGENROOT=\"$R\"" '-DAMPGEN_CXX="/usr/bin/g++"' '-DAMPGEN_CXX_FLAGS=""' '-DAMPGEN_OPENMP_FLAGS=""' "-DAMPGENROOT_CMAKE=\"$R/_build/bin\"" \
  "$here/demo.cpp" -o "$T/demo" -I"$R" -I"$R/_build" -L"$R/_build/lib" -Wl,-rpath,"$R/_build/lib" -Wl,--unresolved-symbols=ignore-in-shared-libs -Wl,-z,lazy -lAmpGen -ldl -lpthread -lmvec -lm || exit 3
cd "$T" && timeout 250 ./demo
