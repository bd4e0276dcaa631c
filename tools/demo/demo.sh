#!/bin/bash
# exit 0: the property held in this scenario; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -fno-access-control -w -I include -I asio/asio/include -I "$here" "$here/demo.cxx" _build/libcornerstone.a -o "$tmp/demo" -lpthread || exit 98
cd "$tmp" && timeout -k 5 60 ./demo
