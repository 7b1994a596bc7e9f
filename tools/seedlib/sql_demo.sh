#!/bin/bash
# Runs script.sql against the built library; the answers have to be those in expected.txt.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
clang++-18 -std=c++20 -O0 -w -mavx2 -mbmi2 -stdlib=libstdc++ -DM_ENABLE_SANITY_FIELDS -fsanitize=address,undefined -fno-sanitize=vptr \
    -Iinclude -Isrc -isystem /usr/include/eigen3 -isystem /opt/vp/include "$H/sql_demo.cpp" -o "$T/demo" \
    -fuse-ld=lld -Wl,--whole-archive _build/lib/libmutable.a -Wl,--no-whole-archive -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libboost_{container,system,thread,atomic}.a 2>/dev/null) -Wl,--end-group -ldl -lpthread || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo" "$H/script.sql" > "$T/out" 2> "$T/err"
R=$?
tail -5 "$T/err"
diff -a "$H/expected.txt" "$T/out" && [ $R = 0 ]
