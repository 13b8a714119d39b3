#!/bin/sh
# Nothing to build ahead: every check extracts and compiles what it needs from /repo on each run.
cd "$(dirname "$0")" && mkdir -p evidence/replay && command -v clang++-18 >/dev/null && /opt/veriftools/pyvenv/bin/python -c 'import z3'
