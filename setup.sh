#!/bin/sh
# Nothing is built in advance: every check compiles its harness against the current tree of /repo.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
clang++ --version >/dev/null
g++ --version >/dev/null
