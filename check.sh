#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONHASHSEED=0 HOME="${HOME:-/root}"
exec /opt/venv/bin/python -m mc.run "$1" --tier "$2"
