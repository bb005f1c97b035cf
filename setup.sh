#!/bin/bash
# Builds the analyser into /verif/build (git-ignored). Safe to run repeatedly.
set -e
cd "$(dirname "$0")"
mkdir -p build
exec 9>build/.lock
flock 9
newest=$(ls -t tool/*.cpp tool/*.hpp | head -1)
if [ -x build/vka ] && [ build/vka -nt "$newest" ]; then exit 0; fi
flags=$(llvm-config-20 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//')
clang++-20 -std=c++20 -O1 $flags -fno-rtti -fexceptions -w tool/vka.cpp -o build/vka.tmp \
    $(llvm-config-20 --ldflags) -lLLVM-20
mv build/vka.tmp build/vka
