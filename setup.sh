#!/bin/bash
# nothing to install: everything is built by each check from /repo's current tree
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c "import z3, sys; print('z3', z3.get_version_string())"
test -x /usr/lib/llvm-18/bin/clang++ && /usr/lib/llvm-18/bin/clang++ --version | head -1
mkdir -p evidence replay
