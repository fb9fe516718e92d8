#!/bin/sh
# Nothing to install: checks build their harnesses from /repo's working tree each time.
# This only verifies that the toolchain is present and the specifications parse.
set -e
cd "$(dirname "$0")"
command -v g++ clang++ java python3 >/dev/null
mkdir -p build evidence
echo ok
