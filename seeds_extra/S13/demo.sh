#!/bin/bash
# run with cwd /repo after the build; everything it writes stays in a scratch directory of its own
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -mavx2 -mbmi -mbmi2 -I./src -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 60 "$T/demo"
