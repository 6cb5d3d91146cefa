#!/bin/bash
# builds the harness with the Python bindings from a source tree: pybuild.sh <repo> <outdir>
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
B=$REPO/EigenIPC/bindings/PyEigenIPC
mkdir -p "$OUT/EigenIPC/PyEigenIPCExt"
INC="-I $REPO/EigenIPC/src -I $REPO/EigenIPC/include -isystem /usr/include/eigen3 -I /usr/include/python3.12 -I $B -I $B/include -I $B/src"
DEF="-DIS_RELEASE=1 -DLIBRARY_NAME=EigenIPC -DEIGEN_DONT_VECTORIZE -DNDEBUG -DVP_PYTHON -std=gnu++17 -U_FORTIFY_SOURCE -w"
pids=()
for f in "$B"/src/*.cpp "$B"/*.cpp; do
  g++ $DEF $INC -O0 -fvisibility=hidden -c "$f" -o "$OUT/py_$(basename "$f" .cpp).o" & pids+=($!)
done
for f in "$REPO"/EigenIPC/src/*.cpp; do
  g++ $DEF $INC -O1 -fsanitize=thread -c "$f" -o "$OUT/lib_$(basename "$f" .cpp).o" & pids+=($!)
done
g++ $DEF $INC -O0 -fvisibility=hidden -I "$HERE" -c "$HERE/driver.cpp" -o "$OUT/driver.o" & pids+=($!)
g++ $DEF -O2 -c "$HERE/vposix.cpp" -o "$OUT/vposix.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
. "$HERE/wraps.sh"
g++ -o "$OUT/driver" "$OUT"/lib_*.o "$OUT"/py_*.o "$OUT/driver.o" "$OUT/vposix.o" $W -lpython3.12 -lpthread -lrt
cp "$B/__init__.py" "$OUT/EigenIPC/"
cp -r "$B/wrappers" "$OUT/EigenIPC/PyEigenIPCExt/"
cp -r "$B/extensions" "$OUT/EigenIPC/PyEigenIPCExt/"
touch "$OUT/EigenIPC/PyEigenIPCExt/__init__.py"
