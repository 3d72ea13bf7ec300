#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w -DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC -I"$d" -I"$PWD/include" "$d/demo.cpp" -o "$w/demo" || exit 3
timeout 250 "$w/demo"
