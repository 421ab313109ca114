#!/bin/bash
# Build every check once; later checks rebuild only what a change in /repo touches.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence replays
exec python3 tools/build.py all
