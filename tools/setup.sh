#!/bin/bash
# Run once in /verif before any check.  Everything is built by the checks themselves, from /repo's
# working tree; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
g++-13 --version | head -1
python3 -B -c 'import sys; sys.path.insert(0, "tools"); import table; print(len(table.CHECKS), "checks")'
