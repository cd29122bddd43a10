#!/bin/bash
# run.sh <property-id> [extra args]   run one check (tier from VERIF_TIER, seed from VERIF_SEED)
# run.sh --replay FILE                re-execute a replay file in a fresh interpreter
# run.sh --determinism ID N           run N scenarios twice under different hash seeds and diff the event logs
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH="$PWD"
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m sim "$@"
