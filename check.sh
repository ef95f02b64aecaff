#!/bin/sh
# usage: check.sh C01   (VERIF_TIER and VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m sim.main "$@"
