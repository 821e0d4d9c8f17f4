#!/bin/bash
# Compiles the monitors once, to fill the build cache. Every check compiles again from /repo's current tree.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
./run.sh gen 10 >/dev/null || exit 1
VH_SETUP=1 ./run.sh C16 --setup >/dev/null 2>&1
exit 0
