#!/bin/bash
# Runs one property's check with the interpreter the repository uses.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/check.py" "$@"
