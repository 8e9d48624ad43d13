#!/bin/bash
# Nothing is installed: the checks compile from the committed sources. This only
# confirms that the tools they need are there and that the engine compiles.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
tmp=$(mktemp -d)
g++ -std=c++17 -O0 -w -c pbt/pbt_main.cpp -o "$tmp/main.o"
rm -rf "$tmp"
python3 -c 'import json; json.load(open("MANIFEST.json"))'
test -d /usr/include/eigen3
echo "setup ok"
