#!/bin/bash
# Nothing to build: checks that the tools are there and the specification parses.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 8)' || exit 1
java -version >/dev/null 2>&1 || exit 1
mkdir -p evidence out
exit 0
