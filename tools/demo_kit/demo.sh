#!/bin/bash
# Compiles demo.cpp against the sources of the current directory (with the minimal stand-ins of this folder) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
src=""; [ -f "$here/sources" ] && src=$(cat "$here/sources")
g++ -std=c++23 -O1 -w -pthread -DNDEBUG -DFMT_HEADER_ONLY -I"$here/mini" -I c++ "$here/demo.cpp" $src -o "$t/demo" || { echo "the demonstration does not compile"; exit 2; }
cd "$t" && timeout 200 ./demo
