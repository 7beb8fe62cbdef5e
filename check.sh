#!/bin/bash
# check.sh PROPERTY [options]: run the simulation check of a property with the
# interpreter the repository is built for, against the sources in /repo.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg
py=/opt/venv/bin/python
[ -x $py ] || py=python3
cd "$here" && exec $py check.py "$@"
