#!/bin/bash
# builds the demonstration against the library of the working tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++14 -O1 -w -fvisibility=hidden -DMPC_WALKGEN_API_H '-DMPC_WALKGEN_API=__attribute__((visibility("default")))' \
  -I"$R" -I"$R/qpsolver" -I/usr/include/eigen3 -I"$D" "$D/demo.cpp" "$R/_build/libmpc-walkgen.a" -o "$T/demo" || exit 3
timeout 120 "$T/demo" 2>/dev/null
