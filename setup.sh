#!/bin/bash
# Nothing to download or install: the verifier is Python (python3-vt has z3) over libLLVM; checks build from /repo on every run.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, sympy; import sys; sys.path.insert(0,"vcg"); import llvmir; llvmir.lib(); print("verifier ready")'
which clang++-18 >/dev/null || test -x /usr/lib/llvm-18/bin/clang++
