#!/bin/sh
# nothing is prebuilt: every check compiles what it needs from /repo. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in clang++ opt-18 z3 z3-new cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
