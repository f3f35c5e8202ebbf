#!/bin/bash
# Nothing to build ahead of time: every check compiles what it needs from /repo. Verify the toolchain.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
gcc --version | head -1
python3 -c 'import sys; sys.path.insert(0,"lib"); import checks; print(len(checks.CHECKS), "checks")'
