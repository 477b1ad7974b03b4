#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra arguments]   |   check.sh --replay FILE
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$VERIF_REPO/src" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
scratch=$(mktemp -d /tmp/verif_home.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" XDG_CACHE_HOME="$scratch/.cache" XDG_CONFIG_HOME="$scratch/.config" TMPDIR="$scratch"
cd "$here"
if [ "$1" = --replay ]; then
  /opt/venv/bin/python -m sim.main "$@"
else
  prop=$1; tier=${2:-quick}; shift 2
  VERIF_TIER=$tier /opt/venv/bin/python -m sim.main --property "$prop" --tier "$tier" "$@"
fi
