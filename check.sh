#!/bin/bash
# check.sh <property> [quick|thorough]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONPATH="$PWD:/repo/src${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
exec python -m harness.run "$1" "$VERIF_TIER"
