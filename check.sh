#!/bin/bash
# usage: check.sh <property> [quick|thorough]     runs against /repo's current working tree (pure python: nothing to build)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export PYTHONPATH="$(pwd):${VERIF_REPO:-/repo}:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1
PY=${PY:-/opt/venv/bin/python}
exec $PY -m vkit.run "$@"
