#!/bin/bash
# Builds the file system shim (C01, C03).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/build"
if [ -f "$here/mc/shim.c" ]; then
    gcc -O2 -Wall -fPIC -shared -o "$here/build/shim.so.$$" "$here/mc/shim.c" -ldl -lpthread
    mv "$here/build/shim.so.$$" "$here/build/shim.so"
fi
