#!/bin/bash
# usage: check.sh PID [quick|thorough] [further options of pbt/main.py]
cd "$(dirname "$0")" || exit 3
pid=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 VERIF_TIER=$tier
exec /opt/venv/bin/python -B -W ignore pbt/main.py "$pid" --tier "$tier" "$@"
