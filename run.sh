#!/bin/bash
# run.sh <ID> [quick|thorough] : run one check against /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HOME=${HOME:-/root} MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mplcfg}
export PYTHONPATH=${VERIF_REPO:-/repo}:$PWD
id=$1; shift
exec /opt/venv/bin/python -W ignore -m checks.$(echo $id | tr 'A-Z' 'a-z') "$@"
