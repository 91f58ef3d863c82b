#!/bin/bash
# sanity check of the toolchain: the checks build everything they need themselves
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays build
g++ --version | head -1
echo 'int main(){return 0;}' | g++ -x c++ -fsanitize=address - -o build/t.$$ && ./build/t.$$ && rm -f build/t.$$
