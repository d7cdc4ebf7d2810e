#!/bin/bash
# run with cwd = the repository, after its build: 0 = behaves, nonzero = broken
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
F="-std=gnu++20 -include cstdint -O1 -g -w -pthread -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -DRDTSCP=1 -DNICE=1 -DLIBCOMPILE=1 -I$R -I$R/raftinc -I$D/stubs $(cat "$D/flags" 2>/dev/null)"
( ls "$R"/src/*.cpp | grep -v sysschedutil ; echo "$D/demo.cpp" ) | xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$T"'/$(basename {}).o' || exit 3
g++ $F "$T"/*.o -ldl -o "$T/demo" || exit 3
cd "$T" && timeout -k 5 120 ./demo
