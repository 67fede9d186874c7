#!/bin/bash
# Nothing to build: TLA+ modules are parsed by TLC, drivers are Python.
# Check that the toolchain is usable.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 10)'
mkdir -p evidence
