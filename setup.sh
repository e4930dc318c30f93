#!/bin/sh
# Nothing to build: the checks are Python and import /repo directly.  Fails early if the tools are missing.
set -e
/opt/venv/bin/python -B "$(dirname "$0")"/lib/shim.py --selftest
