#!/bin/bash
# usage: bash run.sh C01 [--tier quick|thorough] [--replay FILE] [--space NAME]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_HASHSEED:-${VERIF_SEED:-1}}" PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
scratch=$(mktemp -d "${TMPDIR:-/tmp}/cdmir-mc.XXXXXX") || exit 2
export MPLCONFIGDIR="$scratch" VERIF_SCRATCH="$scratch"
/opt/venv/bin/python -W ignore mc/run.py "$@"
rc=$?
rm -rf -- "$scratch"
exit $rc
