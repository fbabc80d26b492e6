#!/bin/bash
# exit 0 if the behaviour is right; run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 -Iinclude -I"$here" "$here/demo.cpp" librtmfp.a -lcrypto -lpthread -o "$t/demo" || exit 3
timeout 120 "$t/demo"
