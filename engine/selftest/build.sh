#!/bin/bash
# builds the engine and its self-test into /verif/build
set -e
cd "$(dirname "$0")/../.."
mkdir -p build
clang++ -std=c++17 -O2 -g -fno-omit-frame-pointer -fno-builtin -w -c engine/engine.cpp -o build/engine.o
clang++ -std=c++17 -O1 -g -fsanitize=thread -fno-omit-frame-pointer -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -c engine/selftest/selftest.cpp -o build/selftest.o
clang++ -no-pie -rdynamic build/selftest.o build/engine.o -o build/selftest -pthread -ldl
