#!/bin/bash
# Nothing to install: every check builds its own harness from /repo. This only verifies the toolchain.
set -e
g++ --version | head -1
/usr/bin/python3 -c 'import numpy, matplotlib, more_itertools, colorama'
mkdir -p "$(dirname "$0")/build" "$(dirname "$0")/evidence"
