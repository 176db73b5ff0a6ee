#!/bin/bash
# setup_cmd: nothing to build (pure Python); validates the reference model and the schema-critical files
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 MPLBACKEND=Agg PYTHONPATH=$PWD
mkdir -p evidence replays
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
MPLCONFIGDIR=$W /opt/venv/bin/python -m mon.selftest
