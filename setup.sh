#!/bin/bash
# Warms the Go build cache: every check builds the simulator again from /repo's current tree.
cd "$(dirname "$0")" && ./run.sh build /dev/null
