#!/bin/bash
# usage: check.sh <property id> [--replay file]     (VERIF_SEED, VERIF_TIER from the environment)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m ormon.core "$@"
