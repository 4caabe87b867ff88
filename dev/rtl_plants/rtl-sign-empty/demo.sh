#!/bin/bash
# run with cwd /repo after the build
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
ln -s "$(pwd)" "$d/UnarySim"
PYTHONPATH="$d" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"
