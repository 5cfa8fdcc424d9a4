#!/bin/sh
# Usage: check.sh PROPERTY [tier | --replay FILE]
cd "$(dirname "$0")" || exit 3
case "$2" in
  quick|thorough) VERIF_TIER="$2"; export VERIF_TIER; set -- "$1" ;;
esac
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore -m lib.main "$@"
