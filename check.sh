#!/bin/sh
# usage: check.sh <property> [quick|thorough]   (or any cli command)
here=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
cd "$here" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
scratch=$(mktemp -d /tmp/dsim.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT INT TERM
export PYTHONPATH="${DSIM_REPO:-/repo}:$here" PYTHONPYCACHEPREFIX="$scratch/pyc" \
  OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  PYTHONHASHSEED="${PYTHONHASHSEED:-0}" HOME="$scratch" TMPDIR="$scratch"
case "$1" in
  C[0-9]*) p=$1; t=${2:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
           [ $# -gt 0 ] && shift
           "$PY" -m dsim.cli check "$p" --tier "$t" "$@" ;;
  *) "$PY" -m dsim.cli "$@" ;;
esac
