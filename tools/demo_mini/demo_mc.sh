#!/bin/bash
# Compiles demo.cpp against the Monte Carlo engine of the current directory (with the minimal stand-ins of this folder) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
c=c++/triqs
g++ -std=c++20 -O1 -w -pthread -I"$here/mini" -I c++ "$here/demo.cpp" $c/utility/signal_handler.cpp $c/utility/callbacks.cpp $c/mc_tools/random_generator.cpp $c/mc_tools/MersenneRNG.cpp -o "$t/demo" || { echo "the demonstration does not compile"; exit 2; }
timeout 120 "$t/demo"
