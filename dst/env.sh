# sourced by ./check and friends: the interpreter and a fixed environment
export PYBRAIN_REPO="${PYBRAIN_REPO:-/repo}"
export PYTHONPATH="$PYBRAIN_REPO:$VERIF_DIR"
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
PY=/opt/pypyvenv/bin/python
