#!/bin/bash
# nothing to build ahead: every check compiles its contract entry points against /repo itself
set -e
command -v clang++-18 opt-18 llvm-cxxfilt-18 g++ python3-vt cvc5 >/dev/null
python3-vt -c 'import z3, mpmath'
