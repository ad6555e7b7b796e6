#!/bin/sh
# Nothing is built: the specification is interpreted by TLC, the code under test is pure Python.
set -e
command -v tlc java >/dev/null
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo/src"); import reparsec'
mkdir -p evidence
