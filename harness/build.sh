#!/bin/bash
# builds the harness from a source tree: build.sh <repo> <outdir>
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FL="-DIS_RELEASE=1 -DLIBRARY_NAME=EigenIPC -DEIGEN_DONT_VECTORIZE -I $REPO/EigenIPC/src -I $REPO/EigenIPC/include -isystem /usr/include/eigen3 -O1 -DNDEBUG -std=gnu++17 -fsanitize=thread -U_FORTIFY_SOURCE -w"
pids=()
for f in "$REPO"/EigenIPC/src/*.cpp; do
  g++ $FL -c "$f" -o "$OUT/lib_$(basename "$f" .cpp).o" & pids+=($!)
done
g++ $FL -I "$HERE" -c "$HERE/driver.cpp" -o "$OUT/driver.o" & pids+=($!)
g++ -std=gnu++17 -O2 -w -c "$HERE/vposix.cpp" -o "$OUT/vposix.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
. "$HERE/wraps.sh"
g++ -o "$OUT/driver" "$OUT"/lib_*.o "$OUT/driver.o" "$OUT/vposix.o" $W -lpthread -lrt
