#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
O=${1:-../build}; mkdir -p "$O"
clang++-18 -w -shared -fPIC -O1 $(llvm-config-18 --cxxflags) -std=c++17 pass.cpp -o "$O/pass.so" &
g++ -O2 -g -w -std=c++17 -c rt.cpp -o "$O/rt.o" &
g++ -O1 -w -std=c++17 -c rt_native.cpp -o "$O/rt_native.o" &
g++ -O2 -w -std=c++17 -DSYM -c rt_omp.cpp -o "$O/rt_omp.o" &
g++ -O2 -w -std=c++17 -c rt_omp.cpp -o "$O/rt_omp_native.o" &
wait
