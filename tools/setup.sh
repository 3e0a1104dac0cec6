#!/bin/bash
# Nothing to compile: check the toolchain the checks need is there.
cd "$(dirname "$0")/.." || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
java -version 2>/dev/null || exit 1
/opt/venv/bin/python -c 'import sys; assert sys.version_info[:2] <= (3, 11)' || exit 1
mkdir -p evidence
