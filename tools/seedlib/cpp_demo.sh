#!/bin/bash
# Builds demo.cpp against the built library and runs it: it exits nonzero when the property does not hold.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
clang++-18 -std=c++20 -O0 -g1 -w -mavx2 -mbmi2 -stdlib=libstdc++ -DM_ENABLE_SANITY_FIELDS -fsanitize=address,undefined -fno-sanitize=vptr \
    -Iinclude -Isrc -isystem /usr/include/eigen3 -isystem /opt/vp/include "$H/demo.cpp" -o "$T/demo" \
    -fuse-ld=lld -Wl,--whole-archive _build/lib/libmutable.a -Wl,--no-whole-archive \
    $(ls /usr/lib/x86_64-linux-gnu/libboost_{container,system,thread,atomic}.a 2>/dev/null) -ldl -lpthread || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=halt_on_error=1 timeout 120 "$T/demo"
