#!/bin/bash
# run.sh <property-id>   : run one check (VERIF_SEED / VERIF_TIER from the environment)
. /opt/vp/env.sh
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONPATH="$here/lib:${VERIF_REPO:-/repo}/trunk"
export PYTHONDONTWRITEBYTECODE=1
exec $PY "$here/checks/$1.py"
