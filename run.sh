#!/bin/bash
# bash run.sh <property id> [--replay FILE]     (VERIF_TIER=quick|thorough, VERIF_SEED=int)
# Runs one check against the current working tree of /repo (pure Python: nothing to compile).
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
