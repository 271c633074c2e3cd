#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vt.checks "$1" "${2:-${VERIF_TIER:-quick}}" 2> >(grep -v -i "warning\|^Note:\|deprecat" >&2)
