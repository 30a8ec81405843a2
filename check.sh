#!/bin/bash
# usage: check.sh <property> [quick|thorough]   -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 HOME="${HOME:-/root}"
export XV_REPO="${XV_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}"
PY=/opt/venv/bin/python
exec "$PY" -m xv.main "$@"
