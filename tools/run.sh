#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
exec /opt/venv/bin/python -W ignore harness/check.py "$1" "$VERIF_TIER"
