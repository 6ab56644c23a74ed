#!/bin/bash
# run.sh <check module> [quick|thorough] [args]   e.g. run.sh c01 quick ; run.sh c01 quick --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
mod="$1"; tier="${2:-quick}"; shift; [ $# -gt 0 ] && shift
export VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif_run_XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
export TMPDIR="$scratch" PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here/lib"
export HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
cd "$scratch" || exit 2
/opt/venv/bin/python -c '
import sys, runpy
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
path = sys.argv[1]
sys.argv = sys.argv[1:]
runpy.run_path(path, run_name="__main__")
' "$here/checks/$mod.py" --tier "$tier" "$@"
exit $?
