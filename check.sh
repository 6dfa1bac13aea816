#!/bin/sh
# usage: check.sh PROPERTY   (VERIF_SEED and VERIF_TIER are honoured)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m vv.check "$1"
