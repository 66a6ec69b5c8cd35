#!/bin/bash
# bash /verif/run.sh <property id> [--replay FILE]
# Runs the monitors of one property against /repo's current working tree.
H=$(dirname "$(realpath "$0")")
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$H" && exec /opt/venv/bin/python -B -m vf.main "$@"
