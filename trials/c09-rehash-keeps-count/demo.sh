#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -g -w -O1 -I"$R/include/eni" -I"$R/tools/eni_crypto" -I"$R/tools/eni_scrypt" -o "$T/demo" "$D/demo.cpp" "$R"/lib/*.cpp "$R"/lib/*/*.cpp   || exit 2
timeout 120 "$T/demo"
