#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE]
V="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 TQDM_DISABLE=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$V" PIP_NO_INDEX=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vlib.core "$@"
