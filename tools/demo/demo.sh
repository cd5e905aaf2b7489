#!/bin/bash
# Compiles demo.cpp against the libraries of the build in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
incs=$(find "$repo/src" -name '*.hpp' -not -path '*/mock/*' -not -path '*/ut/*' -printf '-I%h\n' | sort -u)
libs=$(find "$repo/_build/src" -name '*.a')
g++ -std=gnu++20 -g -O0 -w -DEBUG -fsanitize=address -fsanitize=undefined -pthread -I"$here" $incs "$here/demo.cpp" \
    -Wl,--start-group $libs -Wl,--end-group -o "$tmp/demo" || exit 3
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0 UBSAN_OPTIONS=halt_on_error=0
timeout 120 "$tmp/demo" >"$tmp/out" 2>&1
rc=$?
grep -a 'DEMO' "$tmp/out"
echo "exit $rc"
[ $rc -eq 0 ]
