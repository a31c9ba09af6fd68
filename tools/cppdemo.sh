#!/bin/bash
# demo: compiles demo.cpp with the library's sources (algoim replaced by the copies beside this file) and runs it
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
srcs=""; for s in @SRCS@; do srcs="$srcs cpp/qugar/$s.cpp"; done
g++ -std=gnu++20 -O1 -w -Wl,--unresolved-symbols=ignore-all -I"$here/inc" -Icpp/include "$here/demo.cpp" $srcs -o "$t/demo" 2>&1 | tail -5; [ -x "$t/demo" ] || exit 2
"$t/demo"
