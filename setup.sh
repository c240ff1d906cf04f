#!/bin/bash
# Nothing to build: check that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import talpbt.real'
