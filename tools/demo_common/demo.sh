#!/bin/bash
# builds demo.cpp against the library built in ./_build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I"$R/libCacheSim/include" -I"$R/libCacheSim" $(pkg-config --cflags glib-2.0) "$D/demo.cpp" \
  -Wl,--start-group $(find "$R/_build" -name '*.a') -Wl,--end-group $(pkg-config --libs glib-2.0 gthread-2.0) \
  -lzstd -lm -ldl -lpthread -lxgboost -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo "$R"
