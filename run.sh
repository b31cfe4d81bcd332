#!/bin/bash
# ./run.sh C01 : one check (tier from VERIF_TIER), in the interpreter the repository runs in
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -m vlib.run "$@"
