#!/bin/sh
# builds the IR dumper used by every check (offline, LLVM 18 development files of the sandbox)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence out
if [ ! -x build/xdump ] || [ tools/xdump.cpp -nt build/xdump ]; then
  L=/usr/lib/llvm-18/bin/llvm-config
  clang++ -O1 -std=c++17 tools/xdump.cpp -o build/xdump.tmp.$$ $($L --cxxflags --ldflags --libs core irreader support) -Wno-unused
  mv build/xdump.tmp.$$ build/xdump
fi
build/xdump --version >/dev/null 2>&1 || true
echo "setup done"
