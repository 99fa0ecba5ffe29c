#!/bin/bash
# Nothing to build: the specifications are interpreted; check that the tools are there.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
quint --version >/dev/null || exit 3
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True' || exit 3
exit 0
