#!/bin/bash
# usage: check.sh PROPERTY  (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 -m singdlint.checks "$@"
