#!/bin/bash
# Nothing to prepare apart from the tools: every check builds what it needs. Compiles one harness as a smoke test.
cd "$(dirname "$0")" || exit 2
command -v g++ make flock > /dev/null || exit 2
mkdir -p build evidence replays
make -s -C harness -j"$(nproc)" PROP=C01 OUT="$PWD/build/plain" FLAGS=-O1 > build/setup.log 2>&1 || { tail build/setup.log; exit 2; }
