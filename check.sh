#!/bin/bash
# bash check.sh PROPERTY [quick|thorough] | bash check.sh PROPERTY --replay FILE
# Runs one check against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP PYTHONOPTIMIZE
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
# no bytecode is read from or left in /repo or /verif
export PYTHONPYCACHEPREFIX="$tmp/pyc" PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export TALPBT_TMP="$tmp" LC_ALL=C.UTF-8 PYTHONUTF8=1
/opt/venv/bin/python check.py "$@"
